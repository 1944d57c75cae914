From 1d5a084517ff339d7cd7ea8a383103f551591e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:58 +0000
Subject: [PATCH 01/76] fix: bound-check PUBLISH, PUBACK, ack, REGISTER and
 REGACK deserializers against the received length

A packet whose length field is larger than the buffer, or too small for its
fixed fields, was read past its end; payloadlen could come out negative.
---
 MQTTSNPacket/src/MQTTSNDeserializePublish.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNDeserializePublish.c b/MQTTSNPacket/src/MQTTSNDeserializePublish.c
index 98de94b..38d14be 100644
--- a/MQTTSNPacket/src/MQTTSNDeserializePublish.c
+++ b/MQTTSNPacket/src/MQTTSNDeserializePublish.c
@@ -45,7 +45,7 @@ int MQTTSNDeserialize_publish(unsigned char* dup, int* qos, unsigned char* retai
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (mylen > buflen || enddata - curdata < 6)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_PUBLISH)
@@ -73,6 +73,8 @@ int MQTTSNDeserialize_publish(unsigned char* dup, int* qos, unsigned char* retai
 
 	if (topic->type == MQTTSN_TOPIC_TYPE_NORMAL && *qos == 3)
 	{
+		if (topic->data.long_.len > enddata - curdata)
+			goto exit;
 		topic->data.long_.name = (char*)curdata;
 		curdata += topic->data.long_.len;
 	}
@@ -97,7 +99,7 @@ int MQTTSNDeserialize_puback(unsigned short* topicid, unsigned short* packetid,
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (mylen > buflen || enddata - curdata < 6)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_PUBACK)
@@ -132,7 +134,7 @@ int MQTTSNDeserialize_ack(unsigned char* type, unsigned short* packetid, unsigne
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (mylen > buflen || enddata - curdata < 3)
 		goto exit;
 
 	*type = readChar(&curdata);
@@ -168,7 +170,7 @@ int MQTTSNDeserialize_register(unsigned short* topicid, unsigned short* packetid
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (mylen > buflen || enddata - curdata < 5)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_REGISTER)
@@ -208,7 +210,7 @@ int MQTTSNDeserialize_regack(unsigned short* topicid, unsigned short* packetid,
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (mylen > buflen || enddata - curdata < 6)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_REGACK)
-- 
2.43.0


From 726804d81b9b29923185a51593ee3815b4622d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:58 +0000
Subject: [PATCH 02/76] fix: bound-check ADVERTISE, SEARCHGW and GWINFO
 deserializers against the received length

---
 MQTTSNPacket/src/MQTTSNSearchClient.c | 4 ++--
 MQTTSNPacket/src/MQTTSNSearchServer.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNSearchClient.c b/MQTTSNPacket/src/MQTTSNSearchClient.c
index af93c19..96b44cf 100644
--- a/MQTTSNPacket/src/MQTTSNSearchClient.c
+++ b/MQTTSNPacket/src/MQTTSNSearchClient.c
@@ -38,7 +38,7 @@ int MQTTSNDeserialize_advertise(unsigned char* gatewayid, unsigned short* durati
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (mylen > buflen || enddata - curdata < 4)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_ADVERTISE)
@@ -107,7 +107,7 @@ int MQTTSNDeserialize_gwinfo(unsigned char* gatewayid, unsigned short* gatewayad
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (mylen > buflen || enddata - curdata < 2)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_GWINFO)
diff --git a/MQTTSNPacket/src/MQTTSNSearchServer.c b/MQTTSNPacket/src/MQTTSNSearchServer.c
index c83fd16..c2850ac 100644
--- a/MQTTSNPacket/src/MQTTSNSearchServer.c
+++ b/MQTTSNPacket/src/MQTTSNSearchServer.c
@@ -70,7 +70,7 @@ int MQTTSNDeserialize_searchgw(unsigned char* radius, unsigned char* buf, int bu
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (mylen > buflen || enddata - curdata < 2)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_SEARCHGW)
-- 
2.43.0


From 65b0c102bc4fa56fbcde55253d30f76aeb73d4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:14 +0000
Subject: [PATCH 03/76] fix: bound-check SUBSCRIBE, SUBACK, UNSUBSCRIBE and
 UNSUBACK deserializers, reject the reserved topic type

With topic type 3 the deserializer returned success with the topic unset.
---
 MQTTSNPacket/src/MQTTSNSubscribeClient.c   | 2 +-
 MQTTSNPacket/src/MQTTSNSubscribeServer.c   | 4 +++-
 MQTTSNPacket/src/MQTTSNUnsubscribeClient.c | 2 +-
 MQTTSNPacket/src/MQTTSNUnsubscribeServer.c | 4 +++-
 4 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNSubscribeClient.c b/MQTTSNPacket/src/MQTTSNSubscribeClient.c
index 97680ed..f45f5f4 100644
--- a/MQTTSNPacket/src/MQTTSNSubscribeClient.c
+++ b/MQTTSNPacket/src/MQTTSNSubscribeClient.c
@@ -117,7 +117,7 @@ int MQTTSNDeserialize_suback(int* qos, unsigned short* topicid, unsigned short*
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (mylen > buflen || enddata - curdata < 7)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_SUBACK)
diff --git a/MQTTSNPacket/src/MQTTSNSubscribeServer.c b/MQTTSNPacket/src/MQTTSNSubscribeServer.c
index 54f6faa..30ec5c6 100644
--- a/MQTTSNPacket/src/MQTTSNSubscribeServer.c
+++ b/MQTTSNPacket/src/MQTTSNSubscribeServer.c
@@ -41,7 +41,7 @@ int MQTTSNDeserialize_subscribe(unsigned char* dup, int* qos, unsigned short* pa
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (mylen > buflen || enddata - curdata < 4)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_SUBSCRIBE)
@@ -60,6 +60,8 @@ int MQTTSNDeserialize_subscribe(unsigned char* dup, int* qos, unsigned short* pa
 		topicFilter->data.long_.len = enddata - curdata;
 		topicFilter->data.long_.name = (char*)curdata;
 	}
+	else if (topicFilter->type > MQTTSN_TOPIC_TYPE_SHORT || enddata - curdata < 2)
+		goto exit;
 	else if (topicFilter->type == MQTTSN_TOPIC_TYPE_PREDEFINED)
 		topicFilter->data.id = readInt(&curdata);
 	else if (topicFilter->type == MQTTSN_TOPIC_TYPE_SHORT)
diff --git a/MQTTSNPacket/src/MQTTSNUnsubscribeClient.c b/MQTTSNPacket/src/MQTTSNUnsubscribeClient.c
index 9d952f7..56116d1 100644
--- a/MQTTSNPacket/src/MQTTSNUnsubscribeClient.c
+++ b/MQTTSNPacket/src/MQTTSNUnsubscribeClient.c
@@ -99,7 +99,7 @@ int MQTTSNDeserialize_unsuback(unsigned short* packetid, unsigned char* buf, int
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (mylen > buflen || enddata - curdata < 3)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_UNSUBACK)
diff --git a/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c b/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c
index fe727bc..3ae1acc 100644
--- a/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c
+++ b/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c
@@ -29,7 +29,7 @@ int MQTTSNDeserialize_unsubscribe(unsigned short* packetid, MQTTSN_topicid* topi
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata > buflen)
+	if (mylen > buflen || enddata - curdata < 4)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_UNSUBSCRIBE)
@@ -44,6 +44,8 @@ int MQTTSNDeserialize_unsubscribe(unsigned short* packetid, MQTTSN_topicid* topi
 		topicFilter->data.long_.len = enddata - curdata;
 		topicFilter->data.long_.name = (char*)curdata;
 	}
+	else if (topicFilter->type > MQTTSN_TOPIC_TYPE_SHORT || enddata - curdata < 2)
+		goto exit;
 	else if (topicFilter->type == MQTTSN_TOPIC_TYPE_PREDEFINED)
 		topicFilter->data.id = readInt(&curdata);
 	else if (topicFilter->type == MQTTSN_TOPIC_TYPE_SHORT)
-- 
2.43.0


From 4f0d0ebe494af9c519f94f06b039a41069b8487a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 04/76] fix: bound-check CONNECT, DISCONNECT, PINGREQ and will
 deserializers against the received length

---
 MQTTSNPacket/src/MQTTSNConnectServer.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNConnectServer.c b/MQTTSNPacket/src/MQTTSNConnectServer.c
index 1b707ef..935df13 100644
--- a/MQTTSNPacket/src/MQTTSNConnectServer.c
+++ b/MQTTSNPacket/src/MQTTSNConnectServer.c
@@ -40,7 +40,7 @@ int MQTTSNDeserialize_connect(MQTTSNPacket_connectData* data, unsigned char* buf
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, len, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata < 2)
+	if (mylen > len || enddata - curdata < 5)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_CONNECT)
@@ -107,12 +107,12 @@ int MQTTSNDeserialize_disconnect(int* duration, unsigned char* buf, int buflen)
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = -1;
-	int mylen;
+	int mylen = 0;
 
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata < 1)
+	if (mylen > buflen || mylen < 2 || enddata - curdata < 1)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_DISCONNECT)
@@ -204,7 +204,7 @@ int MQTTSNDeserialize_pingreq(MQTTSNString* clientID, unsigned char* buf, int le
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, len, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata < 1)
+	if (mylen > len || mylen < 2 || enddata - curdata < 1)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_PINGREQ)
@@ -267,7 +267,7 @@ int MQTTSNDeserialize_willtopic1(int *willQoS, unsigned char *willRetain, MQTTSN
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, len, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata > buf + len)
+	if (mylen > len || enddata - curdata < 2)
 		goto exit;
 
 	if (readChar(&curdata) != packet_type)
@@ -329,7 +329,7 @@ int MQTTSNDeserialize_willmsg1(MQTTSNString* willMsg, unsigned char* buf, int le
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, len, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata > buf + len)
+	if (mylen > len || mylen < 2 || enddata - curdata < 1)
 		goto exit;
 
 	if (readChar(&curdata) != packet_type)
-- 
2.43.0


From 534f7aa9953a9d1f0b6644bb6af0ff414f5eb66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 05/76] fix: bound-check CONNACK, PINGRESP and will response
 deserializers, do not report a rejected CONNACK as read

---
 MQTTSNPacket/src/MQTTSNConnectClient.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNConnectClient.c b/MQTTSNPacket/src/MQTTSNConnectClient.c
index e8a6d93..1aa6e20 100644
--- a/MQTTSNPacket/src/MQTTSNConnectClient.c
+++ b/MQTTSNPacket/src/MQTTSNConnectClient.c
@@ -87,12 +87,12 @@ int MQTTSNDeserialize_connack(int* connack_rc, unsigned char* buf, int buflen)
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen;
+	int mylen = 0;
 
 	FUNC_ENTRY;
-	curdata += (rc = MQTTSNPacket_decode(curdata, buflen, &mylen)); /* read length */
+	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - buf < 3)
+	if (mylen > buflen || enddata - curdata < 2)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_CONNACK)
@@ -197,12 +197,12 @@ int MQTTSNDeserialize_pingresp(unsigned char* buf, int buflen)
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen;
+	int mylen = 0;
 
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - curdata < 1)
+	if (mylen > buflen || mylen < 2 || enddata - curdata < 1)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_PINGRESP)
@@ -425,12 +425,12 @@ int MQTTSNDeserialize_willtopicresp(int* resp_rc, unsigned char* buf, int buflen
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen;
+	int mylen = 0;
 
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - buf < 3)
+	if (mylen > buflen || enddata - curdata < 2)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_WILLTOPICRESP)
@@ -457,12 +457,12 @@ int MQTTSNDeserialize_willmsgresp(int* resp_rc, unsigned char* buf, int buflen)
 	unsigned char* curdata = buf;
 	unsigned char* enddata = NULL;
 	int rc = 0;
-	int mylen;
+	int mylen = 0;
 
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (enddata - buf < 3)
+	if (mylen > buflen || enddata - curdata < 2)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_WILLMSGRESP)
-- 
2.43.0


From b5a8a09fd2f7642452e799adc16e29537b93458d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 06/76] fix: return code octets above 127 were returned as
 negative numbers

---
 MQTTSNPacket/src/MQTTSNConnectClient.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNConnectClient.c b/MQTTSNPacket/src/MQTTSNConnectClient.c
index 1aa6e20..4050e11 100644
--- a/MQTTSNPacket/src/MQTTSNConnectClient.c
+++ b/MQTTSNPacket/src/MQTTSNConnectClient.c
@@ -98,7 +98,7 @@ int MQTTSNDeserialize_connack(int* connack_rc, unsigned char* buf, int buflen)
 	if (readChar(&curdata) != MQTTSN_CONNACK)
 		goto exit;
 
-	*connack_rc = readChar(&curdata);
+	*connack_rc = (unsigned char)readChar(&curdata);
 
 	rc = 1;
 exit:
@@ -436,7 +436,7 @@ int MQTTSNDeserialize_willtopicresp(int* resp_rc, unsigned char* buf, int buflen
 	if (readChar(&curdata) != MQTTSN_WILLTOPICRESP)
 		goto exit;
 
-	*resp_rc = readChar(&curdata);
+	*resp_rc = (unsigned char)readChar(&curdata);
 
 	rc = 1;
 exit:
@@ -468,7 +468,7 @@ int MQTTSNDeserialize_willmsgresp(int* resp_rc, unsigned char* buf, int buflen)
 	if (readChar(&curdata) != MQTTSN_WILLMSGRESP)
 		goto exit;
 
-	*resp_rc = readChar(&curdata);
+	*resp_rc = (unsigned char)readChar(&curdata);
 
 	rc = 1;
 exit:
-- 
2.43.0


From 72223fa440ebbcc901a5f51422a6958b3b9b54ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 07/76] fix: the DUP flag is one unsigned bit, it was returned
 as 255

---
 MQTTSNPacket/src/MQTTSNPacket.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNPacket.h b/MQTTSNPacket/src/MQTTSNPacket.h
index 3d9b296..6592517 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.h
+++ b/MQTTSNPacket/src/MQTTSNPacket.h
@@ -85,7 +85,7 @@ typedef union
 #if defined(REVERSED)
 	struct
 	{
-		int dup: 1;
+		unsigned int dup: 1;
 		unsigned int QoS : 2;
 		unsigned int retain : 1;
 		unsigned int will : 1;
@@ -100,7 +100,7 @@ typedef union
 		unsigned int will : 1;
 		unsigned int retain : 1;
 		unsigned int QoS : 2;
-		int dup: 1;
+		unsigned int dup: 1;
 	} bits;
 #endif
 } MQTTSNFlags;
-- 
2.43.0


From 6aa23be9b20051b90e9145ac2d7b49b89175d1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 08/76] fix: writeMQTTSNString writes the string MQTTSNstrlen
 measured when both forms are set

---
 MQTTSNPacket/src/MQTTSNPacket.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNPacket.c b/MQTTSNPacket/src/MQTTSNPacket.c
index 86c1e90..07bb9cb 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.c
+++ b/MQTTSNPacket/src/MQTTSNPacket.c
@@ -191,13 +191,13 @@ int getLenStringLen(char* ptr)
 
 void writeMQTTSNString(unsigned char** pptr, MQTTSNString MQTTSNString)
 {
-	if (MQTTSNString.lenstring.len > 0)
+	if (MQTTSNString.cstring)
+		writeCString(pptr, MQTTSNString.cstring);
+	else if (MQTTSNString.lenstring.len > 0)
 	{
 		memcpy(*pptr, (const unsigned char*)MQTTSNString.lenstring.data, MQTTSNString.lenstring.len);
 		*pptr += MQTTSNString.lenstring.len;
 	}
-	else if (MQTTSNString.cstring)
-		writeCString(pptr, MQTTSNString.cstring);
 }
 
 
-- 
2.43.0


From 4f36b03e210890af56d1134d8d6a3afa0780447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 09/76] fix: a 255 byte packet has a one byte length field

MQTTSNPacket_len() gives 255 for a 254 byte body, but MQTTSNPacket_encode(255)
wrote three bytes: the packet was two bytes longer than computed.
---
 MQTTSNPacket/src/MQTTSNPacket.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNPacket/src/MQTTSNPacket.c b/MQTTSNPacket/src/MQTTSNPacket.c
index 07bb9cb..840a822 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.c
+++ b/MQTTSNPacket/src/MQTTSNPacket.c
@@ -67,7 +67,7 @@ int MQTTSNPacket_encode(unsigned char* buf, int length)
 	int rc = 0;
 
 	FUNC_ENTRY;
-	if (length >= 255)
+	if (length > 255)
 	{
 		writeChar(&buf, 0x01);
 		writeInt(&buf, length);
-- 
2.43.0


From d99febd8e2fe7cccccb76e421e09589f64820e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 10/76] fix: readMQTTSNString left cstring as it was and could
 give a negative length

---
 MQTTSNPacket/src/MQTTSNPacket.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNPacket.c b/MQTTSNPacket/src/MQTTSNPacket.c
index 840a822..6ddbcc2 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.c
+++ b/MQTTSNPacket/src/MQTTSNPacket.c
@@ -212,7 +212,8 @@ int readMQTTSNString(MQTTSNString* MQTTSNString, unsigned char** pptr, unsigned
 	int rc = 0;
 
 	FUNC_ENTRY;
-	MQTTSNString->lenstring.len = enddata - *pptr;
+	MQTTSNString->cstring = NULL;
+	MQTTSNString->lenstring.len = (enddata > *pptr) ? enddata - *pptr : 0;
 	if (MQTTSNString->lenstring.len > 0)
 	{
 		MQTTSNString->lenstring.data = (char*)*pptr;
@@ -221,7 +222,6 @@ int readMQTTSNString(MQTTSNString* MQTTSNString, unsigned char** pptr, unsigned
 	else
 	{
 		MQTTSNString->lenstring.data = NULL;
-		MQTTSNString->cstring = NULL;
 	}
 	rc = 1;
 	FUNC_EXIT_RC(rc);
-- 
2.43.0


From 0415be6ece31eb6f409c9913cd5972ed8bb007f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 11/76] fix: MQTTSNPacket_read and _read_nb read the type
 outside a packet that has none

---
 MQTTSNPacket/src/MQTTSNPacket.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNPacket.c b/MQTTSNPacket/src/MQTTSNPacket.c
index 6ddbcc2..6eabb21 100644
--- a/MQTTSNPacket/src/MQTTSNPacket.c
+++ b/MQTTSNPacket/src/MQTTSNPacket.c
@@ -267,7 +267,7 @@ int MQTTSNPacket_read(unsigned char* buf, int buflen, int (*getfn)(unsigned char
 
 	/* 2. read the length.  This is variable in itself */
 	lenlen = MQTTSNPacket_decode(buf, len, &datalen);
-	if (datalen != len)
+	if (datalen != len || lenlen <= 0 || lenlen >= len)
 		goto exit; /* there was an error */
 
 	rc = buf[lenlen]; /* return the packet type */
@@ -284,7 +284,7 @@ int MQTTSNPacket_read_nb(unsigned char* buf, int buflen)
 
 	/* 2. read the length.  This is variable in itself */
 	lenlen = MQTTSNPacket_decode(buf, len, &datalen);
-	if (datalen != len)
+	if (datalen != len || lenlen <= 0 || lenlen >= len)
 		goto exit; /* there was an error */
 
 	rc = buf[lenlen]; /* return the packet type */
-- 
2.43.0


From c1bbf06e12c81a66c2c4020d4550e5c47c3d6963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:44 +0000
Subject: [PATCH 12/76] fix: GWINFO length counted an address that was not
 written

---
 MQTTSNPacket/src/MQTTSNSearchServer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MQTTSNPacket/src/MQTTSNSearchServer.c b/MQTTSNPacket/src/MQTTSNSearchServer.c
index c2850ac..e48787a 100644
--- a/MQTTSNPacket/src/MQTTSNSearchServer.c
+++ b/MQTTSNPacket/src/MQTTSNSearchServer.c
@@ -102,6 +102,9 @@ int MQTTSNSerialize_gwinfo(unsigned char* buf, int buflen, unsigned char gateway
 	int rc = 0;
 
 	FUNC_ENTRY;
+	if (gatewayaddress == NULL)
+		gatewayaddress_len = 0;
+
 	if ((len = MQTTSNPacket_len(2 + gatewayaddress_len)) > buflen)
 	{
 		rc = MQTTSNPACKET_BUFFER_TOO_SHORT;
-- 
2.43.0


From 4cbf16d1731c5dba1f56cb27dc77b8ff26d1baf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 13/76] fix: deserializers formed a pointer before the buffer
 when the length field could not be read

---
 MQTTSNPacket/src/MQTTSNConnectClient.c      |  6 +++---
 MQTTSNPacket/src/MQTTSNConnectServer.c      |  4 ++--
 MQTTSNPacket/src/MQTTSNDeserializePublish.c | 10 +++++-----
 MQTTSNPacket/src/MQTTSNSearchClient.c       |  4 ++--
 MQTTSNPacket/src/MQTTSNSearchServer.c       |  2 +-
 MQTTSNPacket/src/MQTTSNSubscribeClient.c    |  2 +-
 MQTTSNPacket/src/MQTTSNSubscribeServer.c    |  2 +-
 MQTTSNPacket/src/MQTTSNUnsubscribeClient.c  |  2 +-
 MQTTSNPacket/src/MQTTSNUnsubscribeServer.c  |  2 +-
 9 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/MQTTSNPacket/src/MQTTSNConnectClient.c b/MQTTSNPacket/src/MQTTSNConnectClient.c
index 4050e11..e56df42 100644
--- a/MQTTSNPacket/src/MQTTSNConnectClient.c
+++ b/MQTTSNPacket/src/MQTTSNConnectClient.c
@@ -92,7 +92,7 @@ int MQTTSNDeserialize_connack(int* connack_rc, unsigned char* buf, int buflen)
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (mylen > buflen || enddata - curdata < 2)
+	if (mylen > buflen || mylen < 2 || enddata - curdata < 2)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_CONNACK)
@@ -430,7 +430,7 @@ int MQTTSNDeserialize_willtopicresp(int* resp_rc, unsigned char* buf, int buflen
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (mylen > buflen || enddata - curdata < 2)
+	if (mylen > buflen || mylen < 2 || enddata - curdata < 2)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_WILLTOPICRESP)
@@ -462,7 +462,7 @@ int MQTTSNDeserialize_willmsgresp(int* resp_rc, unsigned char* buf, int buflen)
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (mylen > buflen || enddata - curdata < 2)
+	if (mylen > buflen || mylen < 2 || enddata - curdata < 2)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_WILLMSGRESP)
diff --git a/MQTTSNPacket/src/MQTTSNConnectServer.c b/MQTTSNPacket/src/MQTTSNConnectServer.c
index 935df13..f0712ac 100644
--- a/MQTTSNPacket/src/MQTTSNConnectServer.c
+++ b/MQTTSNPacket/src/MQTTSNConnectServer.c
@@ -40,7 +40,7 @@ int MQTTSNDeserialize_connect(MQTTSNPacket_connectData* data, unsigned char* buf
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, len, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (mylen > len || enddata - curdata < 5)
+	if (mylen > len || mylen < 2 || enddata - curdata < 5)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_CONNECT)
@@ -267,7 +267,7 @@ int MQTTSNDeserialize_willtopic1(int *willQoS, unsigned char *willRetain, MQTTSN
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, len, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (mylen > len || enddata - curdata < 2)
+	if (mylen > len || mylen < 2 || enddata - curdata < 2)
 		goto exit;
 
 	if (readChar(&curdata) != packet_type)
diff --git a/MQTTSNPacket/src/MQTTSNDeserializePublish.c b/MQTTSNPacket/src/MQTTSNDeserializePublish.c
index 38d14be..afd8728 100644
--- a/MQTTSNPacket/src/MQTTSNDeserializePublish.c
+++ b/MQTTSNPacket/src/MQTTSNDeserializePublish.c
@@ -45,7 +45,7 @@ int MQTTSNDeserialize_publish(unsigned char* dup, int* qos, unsigned char* retai
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (mylen > buflen || enddata - curdata < 6)
+	if (mylen > buflen || mylen < 2 || enddata - curdata < 6)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_PUBLISH)
@@ -99,7 +99,7 @@ int MQTTSNDeserialize_puback(unsigned short* topicid, unsigned short* packetid,
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (mylen > buflen || enddata - curdata < 6)
+	if (mylen > buflen || mylen < 2 || enddata - curdata < 6)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_PUBACK)
@@ -134,7 +134,7 @@ int MQTTSNDeserialize_ack(unsigned char* type, unsigned short* packetid, unsigne
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (mylen > buflen || enddata - curdata < 3)
+	if (mylen > buflen || mylen < 2 || enddata - curdata < 3)
 		goto exit;
 
 	*type = readChar(&curdata);
@@ -170,7 +170,7 @@ int MQTTSNDeserialize_register(unsigned short* topicid, unsigned short* packetid
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (mylen > buflen || enddata - curdata < 5)
+	if (mylen > buflen || mylen < 2 || enddata - curdata < 5)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_REGISTER)
@@ -210,7 +210,7 @@ int MQTTSNDeserialize_regack(unsigned short* topicid, unsigned short* packetid,
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (mylen > buflen || enddata - curdata < 6)
+	if (mylen > buflen || mylen < 2 || enddata - curdata < 6)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_REGACK)
diff --git a/MQTTSNPacket/src/MQTTSNSearchClient.c b/MQTTSNPacket/src/MQTTSNSearchClient.c
index 96b44cf..9e53f6e 100644
--- a/MQTTSNPacket/src/MQTTSNSearchClient.c
+++ b/MQTTSNPacket/src/MQTTSNSearchClient.c
@@ -38,7 +38,7 @@ int MQTTSNDeserialize_advertise(unsigned char* gatewayid, unsigned short* durati
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (mylen > buflen || enddata - curdata < 4)
+	if (mylen > buflen || mylen < 2 || enddata - curdata < 4)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_ADVERTISE)
@@ -107,7 +107,7 @@ int MQTTSNDeserialize_gwinfo(unsigned char* gatewayid, unsigned short* gatewayad
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (mylen > buflen || enddata - curdata < 2)
+	if (mylen > buflen || mylen < 2 || enddata - curdata < 2)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_GWINFO)
diff --git a/MQTTSNPacket/src/MQTTSNSearchServer.c b/MQTTSNPacket/src/MQTTSNSearchServer.c
index e48787a..7016027 100644
--- a/MQTTSNPacket/src/MQTTSNSearchServer.c
+++ b/MQTTSNPacket/src/MQTTSNSearchServer.c
@@ -70,7 +70,7 @@ int MQTTSNDeserialize_searchgw(unsigned char* radius, unsigned char* buf, int bu
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (mylen > buflen || enddata - curdata < 2)
+	if (mylen > buflen || mylen < 2 || enddata - curdata < 2)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_SEARCHGW)
diff --git a/MQTTSNPacket/src/MQTTSNSubscribeClient.c b/MQTTSNPacket/src/MQTTSNSubscribeClient.c
index f45f5f4..2cb2276 100644
--- a/MQTTSNPacket/src/MQTTSNSubscribeClient.c
+++ b/MQTTSNPacket/src/MQTTSNSubscribeClient.c
@@ -117,7 +117,7 @@ int MQTTSNDeserialize_suback(int* qos, unsigned short* topicid, unsigned short*
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (mylen > buflen || enddata - curdata < 7)
+	if (mylen > buflen || mylen < 2 || enddata - curdata < 7)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_SUBACK)
diff --git a/MQTTSNPacket/src/MQTTSNSubscribeServer.c b/MQTTSNPacket/src/MQTTSNSubscribeServer.c
index 30ec5c6..457fa35 100644
--- a/MQTTSNPacket/src/MQTTSNSubscribeServer.c
+++ b/MQTTSNPacket/src/MQTTSNSubscribeServer.c
@@ -41,7 +41,7 @@ int MQTTSNDeserialize_subscribe(unsigned char* dup, int* qos, unsigned short* pa
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (mylen > buflen || enddata - curdata < 4)
+	if (mylen > buflen || mylen < 2 || enddata - curdata < 4)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_SUBSCRIBE)
diff --git a/MQTTSNPacket/src/MQTTSNUnsubscribeClient.c b/MQTTSNPacket/src/MQTTSNUnsubscribeClient.c
index 56116d1..1a0bb8f 100644
--- a/MQTTSNPacket/src/MQTTSNUnsubscribeClient.c
+++ b/MQTTSNPacket/src/MQTTSNUnsubscribeClient.c
@@ -99,7 +99,7 @@ int MQTTSNDeserialize_unsuback(unsigned short* packetid, unsigned char* buf, int
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (mylen > buflen || enddata - curdata < 3)
+	if (mylen > buflen || mylen < 2 || enddata - curdata < 3)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_UNSUBACK)
diff --git a/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c b/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c
index 3ae1acc..7249419 100644
--- a/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c
+++ b/MQTTSNPacket/src/MQTTSNUnsubscribeServer.c
@@ -29,7 +29,7 @@ int MQTTSNDeserialize_unsubscribe(unsigned short* packetid, MQTTSN_topicid* topi
 	FUNC_ENTRY;
 	curdata += MQTTSNPacket_decode(curdata, buflen, &mylen); /* read length */
 	enddata = buf + mylen;
-	if (mylen > buflen || enddata - curdata < 4)
+	if (mylen > buflen || mylen < 2 || enddata - curdata < 4)
 		goto exit;
 
 	if (readChar(&curdata) != MQTTSN_UNSUBSCRIBE)
-- 
2.43.0


From 13b593b2c95d009cceca00f075e4605b19c4223d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 14/76] fix: sending or printing an MQTT packet larger than
 1024 bytes overran a stack buffer

---
 MQTTSNGateway/src/MQTTGWPacket.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index 921bcee..e21207d 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -234,10 +234,15 @@ int MQTTGWPacket::recv(Network* network)
 
 int MQTTGWPacket::send(Network* network)
 {
-    unsigned char buf[MQTTSNGW_MAX_PACKET_SIZE];
-    memset(buf, 0, MQTTSNGW_MAX_PACKET_SIZE);
+    unsigned char* buf = (unsigned char*) calloc(getPacketLength(), 1);
+    if (!buf)
+    {
+        return -1;
+    }
     int len = getPacketData(buf);
-    return network->send(buf, len);
+    int rc = network->send(buf, len);
+    free(buf);
+    return rc;
 
 }
 
@@ -602,10 +607,10 @@ void MQTTGWPacket::setMsgId(int msgId)
 
 char* MQTTGWPacket::print(char* pbuf)
 {
-    uint8_t packetData[MQTTSNGW_MAX_PACKET_SIZE];
+    uint8_t* packetData = (uint8_t*) calloc(getPacketLength(), 1);
     char* ptr = pbuf;
     char** pptr = &pbuf;
-    int len = getPacketData(packetData);
+    int len = packetData ? getPacketData(packetData) : 0;
     int size = len > SIZE_OF_LOG_PACKET ? SIZE_OF_LOG_PACKET : len;
     for (int i = 0; i < size; i++)
     {
@@ -613,6 +618,7 @@ char* MQTTGWPacket::print(char* pbuf)
         *pptr += 3;
     }
     **pptr = 0;
+    free(packetData);
     return ptr;
 }
 
-- 
2.43.0


From d89fbbe604f8e9938e0c89c9ac44d746ba0e2e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 15/76] fix: MQTT packets shorter than their fixed fields were
 read past the received data

---
 MQTTSNGateway/src/MQTTGWPacket.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index e21207d..00fbeee 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -253,6 +253,10 @@ int MQTTGWPacket::getAck(Ack* ack)
     {
         return 0;
     }
+    if (_remainingLength < 2)
+    {
+        return 0;
+    }
     char* ptr = (char*) _data;
     ack->header.byte = _header.byte;
     ack->msgId = readInt((char**) &ptr);
@@ -265,6 +269,10 @@ int MQTTGWPacket::getCONNACK(Connack* resp)
     {
         return 0;
     }
+    if (_remainingLength < 2)
+    {
+        return 0;
+    }
     char* ptr = (char*) _data;
     resp->header.byte = _header.byte;
     resp->flags.all = *ptr++;
@@ -278,6 +286,10 @@ int MQTTGWPacket::getSUBACK(unsigned short* msgId, unsigned char* rc)
     {
         return 0;
     }
+    if (_remainingLength < 3)
+    {
+        return 0;
+    }
     char *ptr = (char*) _data;
     *msgId = readInt((char**) &ptr);
     *rc = readChar(&ptr);
@@ -290,9 +302,18 @@ int MQTTGWPacket::getPUBLISH(Publish* pub)
     {
         return 0;
     }
+    int fixedlen = _header.bits.qos > 0 ? 4 : 2;
+    if (_remainingLength < fixedlen)
+    {
+        return 0;
+    }
     char* ptr = (char*) _data;
     pub->header = _header;
     pub->topiclen = readInt((char**) &ptr);
+    if (pub->topiclen > _remainingLength - fixedlen)
+    {
+        return 0;
+    }
     pub->topic = (char*) _data + 2;
     ptr += pub->topiclen;
     if (_header.bits.qos > 0)
@@ -528,7 +549,7 @@ char* MQTTGWPacket::getMsgId(char* pbuf)
     case PUBCOMP:
     case SUBACK:
     case UNSUBACK:
-        sprintf(pbuf, " %02X%02X", _data[0], _data[1]);
+        sprintf(pbuf, " %04X", getMsgId());
         break;
     default:
         sprintf(pbuf, "    ");
@@ -562,7 +583,10 @@ int MQTTGWPacket::getMsgId(void)
     case UNSUBSCRIBE:
     case SUBACK:
     case UNSUBACK:
-        msgId = 256 * (unsigned char) _data[0] + (unsigned char) _data[1];
+        if (_remainingLength >= 2)
+        {
+            msgId = 256 * (unsigned char) _data[0] + (unsigned char) _data[1];
+        }
         break;
     default:
         break;
-- 
2.43.0


From 174ef9dc4b529f0a8cd1021a95c2ec2e6df24ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 16/76] fix: setMsgId of an MQTT PUBLISH overwrote the end of
 the topic and the payload

---
 MQTTSNGateway/src/MQTTGWPacket.cpp | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index 00fbeee..1cc2740 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -603,14 +603,11 @@ void MQTTGWPacket::setMsgId(int msgId)
     {
     case PUBLISH:
         Publish pub;
-        pub.topiclen = 0;
-        pub.msgId = 0;
-        getPUBLISH(&pub);
-        pub.msgId = msgId;
-        ptr = _data + pub.topiclen;
-        writeInt(&ptr, pub.msgId);
-        *ptr++ = (unsigned char) (msgId / 256);
-        *ptr = (unsigned char) (msgId % 256);
+        if (getPUBLISH(&pub) && _header.bits.qos > 0)
+        {
+            ptr = _data + 2 + pub.topiclen;
+            writeInt(&ptr, msgId);
+        }
         break;
     case SUBSCRIBE:
     case UNSUBSCRIBE:
@@ -620,9 +617,11 @@ void MQTTGWPacket::setMsgId(int msgId)
     case PUBCOMP:
     case SUBACK:
     case UNSUBACK:
-        ptr = _data;
-        *ptr++ = (unsigned char) (msgId / 256);
-        *ptr = (unsigned char) (msgId % 256);
+        if (_remainingLength >= 2)
+        {
+            ptr = _data;
+            writeInt(&ptr, msgId);
+        }
         break;
     default:
         break;
-- 
2.43.0


From 8f01094eba031cc32e32cbec2600a8199c5815fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 17/76] fix: an MQTT packet kept the pointer to its freed data

---
 MQTTSNGateway/src/MQTTGWPacket.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index 1cc2740..bdecb35 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -517,6 +517,7 @@ void MQTTGWPacket::clearData(void)
     if (_data)
     {
         free(_data);
+        _data = nullptr;
     }
     _header.byte = 0;
     _remainingLength = 0;
-- 
2.43.0


From 327349ede1080f5b68049d23ca8a67b45cc5ff0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 18/76] fix: the topic of an MQTT SUBSCRIBE or UNSUBSCRIBE was
 cut to its length modulo 256

---
 MQTTSNGateway/src/MQTTGWPacket.cpp | 9 +++++++--
 MQTTSNGateway/src/MQTTGWPacket.h   | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index bdecb35..e5e844a 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -666,10 +666,15 @@ MQTTGWPacket& MQTTGWPacket::operator =(MQTTGWPacket& packet)
 UTF8String MQTTGWPacket::getTopic(void)
 {
     UTF8String str = { 0, nullptr };
-    if (_header.bits.type == SUBSCRIBE || _header.bits.type == UNSUBSCRIBE)
+    if ((_header.bits.type == SUBSCRIBE || _header.bits.type == UNSUBSCRIBE) && _remainingLength >= 4)
     {
         char* ptr = (char*) (_data + 2);
-        str.len = readInt(&ptr);
+        int len = readInt(&ptr);
+        if (len > _remainingLength - 4)
+        {
+            return str;
+        }
+        str.len = len;
         str.data = (char*) (_data + 4);
     }
     return str;
diff --git a/MQTTSNGateway/src/MQTTGWPacket.h b/MQTTSNGateway/src/MQTTGWPacket.h
index 46df326..98a3cf7 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.h
+++ b/MQTTSNGateway/src/MQTTGWPacket.h
@@ -198,7 +198,7 @@ typedef struct
  */
 typedef struct
 {
-    unsigned char len;
+    int len;
     char* data;
 } UTF8String;
 
-- 
2.43.0


From 35c08bfcd42ab8093b509aa89e98401c7b03c686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:25 +0000
Subject: [PATCH 19/76] fix: an MQTT packet delivered in several TCP segments
 was rejected, a closed connection was read as data

---
 MQTTSNGateway/src/MQTTGWPacket.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPacket.cpp b/MQTTSNGateway/src/MQTTGWPacket.cpp
index e5e844a..ec976c6 100644
--- a/MQTTSNGateway/src/MQTTGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTGWPacket.cpp
@@ -199,7 +199,7 @@ int MQTTGWPacket::recv(Network* network)
         {
             return -2;
         }
-        if (network->recv(&c, 1) == -1)
+        if (network->recv(&c, 1) <= 0)
         {
             return -1;
         }
@@ -217,16 +217,17 @@ int MQTTGWPacket::recv(Network* network)
             return -3;
         }
 
-        /* read Payload */
-        int remlen = network->recv(_data, _remainingLength);
-
-        if (remlen == -1)
+        /* read Payload, a stream may deliver it in pieces */
+        int remlen = 0;
+        while (remlen < _remainingLength)
         {
-            return -1;
-        }
-        else if (remlen != _remainingLength)
-        {
-            return -2;
+            int size = _remainingLength - remlen > 0xffff ? 0xffff : _remainingLength - remlen;
+            rc = network->recv(_data + remlen, size);
+            if (rc <= 0)
+            {
+                return -1;
+            }
+            remlen += rc;
         }
     }
     return 1 + len + _remainingLength;
-- 
2.43.0


From b27453672c1ae7867f82c056aa3df0225945dddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:08 +0000
Subject: [PATCH 20/76] fix: a topic filter ending in +/# did not match the
 parent level

---
 MQTTSNGateway/src/MQTTSNGWTopic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWTopic.cpp b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
index 68cf1fe..1172c69 100644
--- a/MQTTSNGateway/src/MQTTSNGWTopic.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
@@ -148,7 +148,7 @@ bool Topic::isMatch(string* topicName)
         {
             string subtopic = topicName->substr(pos);
             string subtopict = _topicName->substr(tpos, tloc - tpos);
-            if (subtopic != subtopict)
+            if (subtopict != wildcards && subtopic != subtopict)
             {
                 return false;
             }
-- 
2.43.0


From b26ebc4e4b4d07462d7eb85d90be78a16a87da4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 21/76] fix: the search for wildcards in a topic name ran past
 its end

---
 MQTTSNGateway/src/MQTTSNGWTopic.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWTopic.cpp b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
index 1172c69..d4dc273 100644
--- a/MQTTSNGateway/src/MQTTSNGWTopic.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
@@ -407,9 +407,13 @@ TopicIdMapElement::TopicIdMapElement(uint16_t msgId, uint16_t topicId, MQTTSN_to
 
     if (_type == MQTTSN_TOPIC_TYPE_NORMAL)
     {
-        if (strchr(topic->data.long_.name, '#') != 0 || strchr(topic->data.long_.name, '+') != 0)
+        const char* name = topic->data.long_.name;
+        for (int i = 0; i < topic->data.long_.len && name[i] != 0; i++)
         {
-            _wildcard = 1;
+            if (name[i] == '#' || name[i] == '+')
+            {
+                _wildcard = 1;
+            }
         }
     }
 }
-- 
2.43.0


From 4c84ff5a8f6c6544cbb7a8690b7e4e0f022d3f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:09 +0000
Subject: [PATCH 22/76] fix: erasing an unknown message id from the topic id
 map changed its count

---
 MQTTSNGateway/src/MQTTSNGWTopic.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWTopic.cpp b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
index d4dc273..ccfd403 100644
--- a/MQTTSNGateway/src/MQTTSNGWTopic.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWTopic.cpp
@@ -530,12 +530,12 @@ void TopicIdMap::erase(uint16_t msgId)
                 p->_next->_prev = p->_prev;
             }
             delete p;
+            _cnt--;
             break;
 
         }
         p = p->_next;
     }
-    _cnt--;
 }
 
 void TopicIdMap::clear(void)
-- 
2.43.0


From b00b3412b36a81fc10e6d4b1a1e81d4add64634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 23/76] fix: a packet too large for its buffer was sent as 64
 KB of stack contents

---
 MQTTSNGateway/src/MQTTSNGWPacket.cpp | 18 +++++++++++++++++-
 MQTTSNGateway/src/MQTTSNGWPacket.h   |  2 +-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.cpp b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
index 72189db..d243be5 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
@@ -58,11 +58,19 @@ MQTTSNPacket::~MQTTSNPacket()
 
 int MQTTSNPacket::unicast(SensorNetwork* network, SensorNetAddress* sendTo)
 {
+    if (_bufLen == 0)
+    {
+        return -1;
+    }
     return network->unicast(_buf, _bufLen, sendTo);
 }
 
 int MQTTSNPacket::broadcast(SensorNetwork* network)
 {
+    if (_bufLen == 0)
+    {
+        return -1;
+    }
     return network->broadcast(_buf, _bufLen);
 }
 
@@ -72,11 +80,19 @@ int MQTTSNPacket::serialize(uint8_t* buf)
     return _bufLen;
 }
 
-int MQTTSNPacket::desirialize(unsigned char* buf, unsigned short len)
+int MQTTSNPacket::desirialize(unsigned char* buf, int len)
 {
     if (_buf)
     {
         free(_buf);
+        _buf = nullptr;
+        _bufLen = 0;
+    }
+
+    if (len <= 0)
+    {
+        /* the serializer could not make the packet */
+        return 0;
     }
 
     _buf = (unsigned char*) calloc(len, sizeof(unsigned char));
diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.h b/MQTTSNGateway/src/MQTTSNGWPacket.h
index 4ac3007..bb8cdd2 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.h
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.h
@@ -34,7 +34,7 @@ public:
     int broadcast(SensorNetwork* network);
     int recv(SensorNetwork* network);
     int serialize(uint8_t* buf);
-    int desirialize(unsigned char* buf, unsigned short len);
+    int desirialize(unsigned char* buf, int len);
     int getType(void);
     unsigned char* getPacketData(void);
     int getPacketLength(void);
-- 
2.43.0


From f15be8b566fc9afe3d6ac89f4e7141190f776898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 24/76] fix: type, flags and message id of a short packet were
 read and written outside it

---
 MQTTSNGateway/src/MQTTSNGWPacket.cpp | 196 ++++++++-------------------
 MQTTSNGateway/src/MQTTSNGWPacket.h   |   3 +
 2 files changed, 62 insertions(+), 137 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.cpp b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
index d243be5..defc626 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
@@ -120,26 +120,55 @@ int MQTTSNPacket::recv(SensorNetwork* network)
 
 }
 
-int MQTTSNPacket::getType(void)
+int MQTTSNPacket::getTypePos(void)
 {
-    if (_bufLen == 0)
-    {
-        return 0;
-    }
     int value = 0;
     int p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-    return _buf[p];
+    return (p > 0 && p < _bufLen) ? p : 0;
 }
 
-bool MQTTSNPacket::isQoSMinusPUBLISH(void)
+int MQTTSNPacket::getMsgIdPos(void)
 {
-    if (_bufLen == 0)
+    int p = getTypePos();
+    int pos = 0;
+
+    switch (getType())
     {
-        return false;;
+    case MQTTSN_PUBLISH:
+    case MQTTSN_SUBACK:
+        pos = p + 4;
+        break;
+    case MQTTSN_PUBACK:
+    case MQTTSN_REGISTER:
+    case MQTTSN_REGACK:
+        pos = p + 3;
+        break;
+    case MQTTSN_SUBSCRIBE:
+    case MQTTSN_UNSUBSCRIBE:
+        pos = p + 2;
+        break;
+    case MQTTSN_PUBREC:
+    case MQTTSN_PUBREL:
+    case MQTTSN_PUBCOMP:
+    case MQTTSN_UNSUBACK:
+        pos = p + 1;
+        break;
+    default:
+        break;
     }
-    int value = 0;
-    int p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-    return ((_buf[p] == MQTTSN_PUBLISH) && ((_buf[p + 1] & 0x60) == 0x60));
+    return pos + 2 <= _bufLen ? pos : 0;
+}
+
+int MQTTSNPacket::getType(void)
+{
+    int p = getTypePos();
+    return p > 0 ? _buf[p] : 0;
+}
+
+bool MQTTSNPacket::isQoSMinusPUBLISH(void)
+{
+    int p = getTypePos();
+    return p > 0 && p + 1 < _bufLen && _buf[p] == MQTTSN_PUBLISH && (_buf[p + 1] & 0x60) == 0x60;
 }
 
 unsigned char* MQTTSNPacket::getPacketData(void)
@@ -185,7 +214,8 @@ int MQTTSNPacket::setConnect(void)
 
 bool MQTTSNPacket::isAccepted(void)
 {
-    return (getType() == MQTTSN_CONNACK) && (_buf[2] == MQTTSN_RC_ACCEPTED);
+    int p = getTypePos();
+    return (getType() == MQTTSN_CONNACK) && p + 1 < _bufLen && (_buf[p + 1] == MQTTSN_RC_ACCEPTED);
 }
 
 int MQTTSNPacket::setCONNACK(uint8_t returnCode)
@@ -444,46 +474,17 @@ char* MQTTSNPacket::print(char* pbuf)
 
 char* MQTTSNPacket::getMsgId(char* pbuf)
 {
-    int value = 0;
-    int p = 0;
+    int msgId = getMsgId();
 
-    switch (getType())
+    if (getType() == MQTTSN_PUBLISH && isDuplicate())
     {
-    case MQTTSN_PUBLISH:
-        p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-        if (_buf[p + 1] & 0x80)
-        {
-            sprintf(pbuf, "+%02X%02X", _buf[p + 4], _buf[p + 5]);
-        }
-        else
-        {
-            sprintf(pbuf, " %02X%02X", _buf[p + 4], _buf[p + 5]);
-        }
-        break;
-    case MQTTSN_PUBACK:
-    case MQTTSN_REGISTER:
-    case MQTTSN_REGACK:
-        sprintf(pbuf, " %02X%02X", _buf[4], _buf[5]);
-        break;
-    case MQTTSN_PUBREC:
-    case MQTTSN_PUBREL:
-    case MQTTSN_PUBCOMP:
-    case MQTTSN_UNSUBACK:
-        sprintf(pbuf, " %02X%02X", _buf[2], _buf[3]);
-        break;
-    case MQTTSN_SUBSCRIBE:
-    case MQTTSN_UNSUBSCRIBE:
-        p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-        sprintf(pbuf, " %02X%02X", _buf[p + 2], _buf[p + 3]);
-        break;
-    case MQTTSN_SUBACK:
-        sprintf(pbuf, " %02X%02X", _buf[5], _buf[6]);
-        break;
-    default:
-        sprintf(pbuf, "    ");
-        break;
+        sprintf(pbuf, "+%04X", msgId);
     }
-    if (strcmp(pbuf, " 0000") == 0)
+    else if (msgId > 0)
+    {
+        sprintf(pbuf, " %04X", msgId);
+    }
+    else
     {
         sprintf(pbuf, "    ");
     }
@@ -492,101 +493,22 @@ char* MQTTSNPacket::getMsgId(char* pbuf)
 
 int MQTTSNPacket::getMsgId(void)
 {
-    int value = 0;
-    int p = 0;
-    int msgId = 0;
-    char* ptr = 0;
-
-    switch (getType())
-    {
-    case MQTTSN_PUBLISH:
-        p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-        ptr = (char*) _buf + p + 4;
-        msgId = readInt((char**) &ptr);
-        break;
-    case MQTTSN_PUBACK:
-    case MQTTSN_REGISTER:
-    case MQTTSN_REGACK:
-        ptr = (char*) _buf + 4;
-        msgId = readInt((char**) &ptr);
-        break;
-    case MQTTSN_PUBREC:
-    case MQTTSN_PUBREL:
-    case MQTTSN_PUBCOMP:
-    case MQTTSN_UNSUBACK:
-        ptr = (char*) _buf + 2;
-        msgId = readInt((char**) &ptr);
-        break;
-    case MQTTSN_SUBSCRIBE:
-    case MQTTSN_UNSUBSCRIBE:
-        p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-        ptr = (char*) _buf + p + 2;
-        msgId = readInt((char**) &ptr);
-        break;
-    case MQTTSN_SUBACK:
-        ptr = (char*) _buf + 5;
-        msgId = readInt((char**) &ptr);
-        break;
-    default:
-        break;
-    }
-    return msgId;
+    int pos = getMsgIdPos();
+    return pos > 0 ? _buf[pos] * 256 + _buf[pos + 1] : 0;
 }
 
 void MQTTSNPacket::setMsgId(uint16_t msgId)
 {
-    int value = 0;
-    int p = 0;
-    //unsigned char* ptr = 0;
-
-    switch (getType())
+    int pos = getMsgIdPos();
+    if (pos > 0)
     {
-    case MQTTSN_PUBLISH:
-        p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-        _buf[p + 4] = (unsigned char) (msgId / 256);
-        _buf[p + 5] = (unsigned char) (msgId % 256);
-        //ptr = _buf + p + 4;
-        //writeInt(&ptr, msgId);
-        break;
-    case MQTTSN_PUBACK:
-    case MQTTSN_REGISTER:
-    case MQTTSN_REGACK:
-        _buf[4] = (unsigned char) (msgId / 256);
-        _buf[5] = (unsigned char) (msgId % 256);
-        //ptr = _buf + 4;
-        //writeInt(&ptr, msgId);
-        break;
-    case MQTTSN_PUBREC:
-    case MQTTSN_PUBREL:
-    case MQTTSN_PUBCOMP:
-    case MQTTSN_UNSUBACK:
-        _buf[2] = (unsigned char) (msgId / 256);
-        _buf[3] = (unsigned char) (msgId % 256);
-        //ptr = _buf + 2;
-        //writeInt(&ptr, msgId);
-        break;
-    case MQTTSN_SUBSCRIBE:
-    case MQTTSN_UNSUBSCRIBE:
-        p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-        _buf[p + 2] = (unsigned char) (msgId / 256);
-        _buf[p + 3] = (unsigned char) (msgId % 256);
-        //ptr = _buf + p + 2;
-        //writeInt(&ptr, msgId);
-        break;
-    case MQTTSN_SUBACK:
-        _buf[5] = (unsigned char) (msgId / 256);
-        _buf[6] = (unsigned char) (msgId % 256);
-        //ptr = _buf + 5;
-        //writeInt(&ptr, msgId);
-        break;
-    default:
-        break;
+        _buf[pos] = (unsigned char) (msgId / 256);
+        _buf[pos + 1] = (unsigned char) (msgId % 256);
     }
 }
 
 bool MQTTSNPacket::isDuplicate(void)
 {
-    int value = 0;
-    int p = MQTTSNPacket_decode(_buf, _bufLen, &value);
-    return (_buf[p + 1] & 0x80);
+    int p = getTypePos();
+    return p > 0 && p + 1 < _bufLen && (_buf[p + 1] & 0x80);
 }
diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.h b/MQTTSNGateway/src/MQTTSNGWPacket.h
index bb8cdd2..f52833f 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.h
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.h
@@ -96,6 +96,9 @@ public:
     char* print(char* buf);
 
 private:
+    int getTypePos(void);
+    int getMsgIdPos(void);
+
     unsigned char* _buf;    // Ptr to a packet data
     int _bufLen; // length of the packet data
 };
-- 
2.43.0


From ab4c5da93e5ee0a091e8a9f92ef06ada32c8416d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 25/76] fix: getCONNACK built a packet, getPINGREQ looked for
 PINGRESP, getWILLTOPICUPD wrote 4 bytes to a 1 byte result, serialize did
 nothing

---
 MQTTSNGateway/src/MQTTSNGWPacket.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPacket.cpp b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
index defc626..90caf8a 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacket.cpp
@@ -76,7 +76,7 @@ int MQTTSNPacket::broadcast(SensorNetwork* network)
 
 int MQTTSNPacket::serialize(uint8_t* buf)
 {
-    buf = _buf;
+    memcpy(buf, _buf, _bufLen);
     return _bufLen;
 }
 
@@ -377,7 +377,10 @@ int MQTTSNPacket::getCONNECT(MQTTSNPacket_connectData* data)
 
 int MQTTSNPacket::getCONNACK(uint8_t* returnCode)
 {
-    return MQTTSNSerialize_connack(_buf, _bufLen, (int) *returnCode);
+    int code = 0;
+    int rc = MQTTSNDeserialize_connack(&code, _buf, _bufLen);
+    *returnCode = (uint8_t) code;
+    return rc;
 }
 
 int MQTTSNPacket::getWILLTOPIC(int* willQoS, uint8_t* willRetain, MQTTSNString* willTopic)
@@ -432,7 +435,7 @@ int MQTTSNPacket::getUNSUBSCRIBE(uint16_t* msgId, MQTTSN_topicid* topicFilter)
 
 int MQTTSNPacket::getPINGREQ(void)
 {
-    if (getType() == MQTTSN_PINGRESP && _bufLen > 2)
+    if (getType() == MQTTSN_PINGREQ && _bufLen > 2)
     {
         return _bufLen - 2;
     }
@@ -449,7 +452,10 @@ int MQTTSNPacket::getDISCONNECT(uint16_t* duration)
 
 int MQTTSNPacket::getWILLTOPICUPD(uint8_t* willQoS, uint8_t* willRetain, MQTTSNString* willTopic)
 {
-    return MQTTSNDeserialize_willtopicupd((int*) willQoS, (unsigned char*) willRetain, willTopic, _buf, _bufLen);
+    int qos = 0;
+    int rc = MQTTSNDeserialize_willtopicupd(&qos, (unsigned char*) willRetain, willTopic, _buf, _bufLen);
+    *willQoS = (uint8_t) qos;
+    return rc;
 }
 
 int MQTTSNPacket::getWILLMSGUPD(MQTTSNString* willMsg)
-- 
2.43.0


From e0de7d149d458e35f2ef15ee335ef1ab13eac014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:37 +0000
Subject: [PATCH 26/76] fix: an encapsulated packet overran its buffer when the
 packet in it was near the maximum size

---
 MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp     | 2 +-
 MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp | 4 ++--
 MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.h   | 2 ++
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp b/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp
index 4fb4282..9a72a70 100644
--- a/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp
@@ -128,7 +128,7 @@ Client* AdapterManager::getClient(Client* client)
 
 int AdapterManager::unicastToClient(Client* client, MQTTSNPacket* packet, ClientSendTask* task)
 {
-    char pbuf[SIZE_OF_LOG_PACKET * 3];
+    char pbuf[SIZE_OF_LOG_PACKET * 3 + 1];
     Forwarder* fwd = client->getForwarder();
     int rc = 0;
 
diff --git a/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp b/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp
index 24c2afe..e471480 100644
--- a/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp
@@ -94,7 +94,7 @@ MQTTSNGWEncapsulatedPacket::~MQTTSNGWEncapsulatedPacket()
 
 int MQTTSNGWEncapsulatedPacket::unicast(SensorNetwork* network, SensorNetAddress* sendTo)
 {
-    uint8_t buf[MQTTSNGW_MAX_PACKET_SIZE];
+    uint8_t buf[MQTTSNGW_MAX_PACKET_SIZE + MQTTSNGW_MAX_ENCAPSULATION_HEADER];
     int len = serialize(buf);
     return network->unicast(buf, len, sendTo);
 }
@@ -160,7 +160,7 @@ char* MQTTSNGWEncapsulatedPacket::print(char* pbuf)
     char* ptr = pbuf;
     char** pptr = &pbuf;
 
-    uint8_t buf[MQTTSNGW_MAX_PACKET_SIZE];
+    uint8_t buf[MQTTSNGW_MAX_PACKET_SIZE + MQTTSNGW_MAX_ENCAPSULATION_HEADER];
     int len = serialize(buf);
     int size = len > SIZE_OF_LOG_PACKET ? SIZE_OF_LOG_PACKET : len;
 
diff --git a/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.h b/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.h
index 080b9ab..b363e99 100644
--- a/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.h
+++ b/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.h
@@ -34,6 +34,8 @@ private:
     uint8_t* _nodeId;
 };
 
+#define MQTTSNGW_MAX_ENCAPSULATION_HEADER 255  // Length, MsgType, Ctrl and Wireless Node Id
+
 class MQTTSNGWEncapsulatedPacket
 {
 public:
-- 
2.43.0


From 5f2dbb6cca502e2db2c8b926d98b82db6f114bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:37 +0000
Subject: [PATCH 27/76] fix: an encapsulation header that does not fit the
 received bytes was read outside of them

---
 MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp b/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp
index e471480..41d9c6b 100644
--- a/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWEncapsulatedPacket.cpp
@@ -122,10 +122,16 @@ int MQTTSNGWEncapsulatedPacket::desirialize(unsigned char* buf, unsigned short l
         _mqttsn = nullptr;
     }
 
+    _mqttsn = new MQTTSNPacket;
+
+    if (len < 3 || buf[0] < 3 || buf[0] > len)
+    {
+        /* the header is not complete */
+        return 0;
+    }
+
     _ctrl = buf[2];
     _id.setId(buf + 3, buf[0] - 3);
-
-    _mqttsn = new MQTTSNPacket;
     _mqttsn->desirialize(buf + buf[0], len - buf[0]);
     return buf[0];
 }
-- 
2.43.0


From c8bd7ba714c07e484097df43d07886168fd6edc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:37 +0000
Subject: [PATCH 28/76] fix: logging a client id of more than 64 bytes overran
 a stack buffer

---
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
index f4c019b..ce39447 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
@@ -263,13 +263,18 @@ void ClientRecvTask::log(Client* client, MQTTSNPacket* packet, MQTTSNString* id)
     {
         if (id->cstring)
         {
-            strncpy(cstr, id->cstring, strlen(id->cstring));
+            strncpy(cstr, id->cstring, MAX_CLIENTID_LENGTH);
+            cstr[MAX_CLIENTID_LENGTH] = 0;
             clientId = cstr;
         }
         else
         {
-            memset((void*) cstr, 0, id->lenstring.len + 1);
-            strncpy(cstr, id->lenstring.data, id->lenstring.len);
+            int len = id->lenstring.len > MAX_CLIENTID_LENGTH ? MAX_CLIENTID_LENGTH : id->lenstring.len;
+            memset((void*) cstr, 0, sizeof(cstr));
+            if (len > 0)
+            {
+                strncpy(cstr, id->lenstring.data, len);
+            }
             clientId = cstr;
         }
     }
-- 
2.43.0


From 9071c88367703ecf3b27f727e0b2be184c932f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:37 +0000
Subject: [PATCH 29/76] fix: a rejected client of a forwarder was added to it
 as a null pointer, the encapsulated packet leaked

---
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
index ce39447..f42ec6f 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
@@ -113,6 +113,7 @@ void ClientRecvTask::run()
                 encap.desirialize(packet->getPacketData(), packet->getPacketLength());
                 nodeId.setId(encap.getWirelessNodeId());
                 client = fwd->getClient(&nodeId);
+                delete packet;
                 packet = encap.getMQTTSNPacket();
             }
         }
@@ -197,7 +198,10 @@ void ClientRecvTask::run()
                         client = clientList->createClient(0, &data.clientID, clientType);
                     }
                     /* Add to a forwarded client list of forwarder. */
-                    fwd->addClient(client, &nodeId);
+                    if (client != nullptr)
+                    {
+                        fwd->addClient(client, &nodeId);
+                    }
                 }
                 else
                 {
-- 
2.43.0


From 446ad88e6d5db60fbfa71532e240c2916ca0641d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:37 +0000
Subject: [PATCH 30/76] fix: the client of an earlier packet, which may be
 deleted, was used to log a broadcast

---
 MQTTSNGateway/src/MQTTSNGWClientSendTask.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientSendTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientSendTask.cpp
index 7b07389..d99b0e5 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientSendTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientSendTask.cpp
@@ -48,6 +48,8 @@ void ClientSendTask::run()
     while (true)
     {
         Event* ev = _gateway->getClientSendQue()->wait();
+        client = nullptr;
+        rc = 0;
 
         if (ev->getEventType() == EtStop || _gateway->IsStopping())
         {
-- 
2.43.0


From 510c6cb33bb1f2cbf21fa97fb50b9dc91d2c82a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 31/76] fix: erasing a client of a forwarder dropped the
 clients added before it

---
 MQTTSNGateway/src/MQTTSNGWForwarder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWForwarder.cpp b/MQTTSNGateway/src/MQTTSNGWForwarder.cpp
index a157747..98a82bb 100644
--- a/MQTTSNGateway/src/MQTTSNGWForwarder.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWForwarder.cpp
@@ -234,6 +234,7 @@ void Forwarder::eraseClient(Client* client)
         }
         else
         {
+            prev = p;
             p = p->_next;
         }
     }
-- 
2.43.0


From 5b1e12b5754d71283a820917c4c305bf5faf33b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:54 +0000
Subject: [PATCH 32/76] fix: PUBLISH to a predefined topic of the gateway was
 rejected when the client's topic table was full

---
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index 3824173..a90f785 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -86,7 +86,11 @@ MQTTGWPacket* MQTTSNPublishHandler::handlePublish(Client* client, MQTTSNPacket*
             topic = _gateway->getTopics()->getTopicById(&topicid);
             if (topic)
             {
-                topic = client->getTopics()->add(topic->getTopicName()->c_str(), topic->getTopicId());
+                Topic* added = client->getTopics()->add(topic->getTopicName()->c_str(), topic->getTopicId());
+                if (added)
+                {
+                    topic = added;
+                }
             }
         }
 
-- 
2.43.0


From cfb370c174f17fe356df848bad4f41edb45a7ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:54 +0000
Subject: [PATCH 33/76] fix: a QoS 0 PUBLISH with an unknown topic id was sent
 to the broker with an empty topic name

---
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index a90f785..abf4b01 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -106,6 +106,12 @@ MQTTGWPacket* MQTTSNPublishHandler::handlePublish(Client* client, MQTTSNPacket*
             return nullptr;
         }
 
+        if (!topic && qos == 0)
+        {
+            WRITELOG("%s Invalid TopicId.%s %s\n", ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
+            return nullptr;
+        }
+
         if (!topic && msgId && qos > 0 && qos < 3)
         {
             /* Reply PubAck with INVALID_TOPIC_ID to the client */
-- 
2.43.0


From 8b96b9968cac564a081e1dd1f14949fd244be9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:54 +0000
Subject: [PATCH 34/76] fix: a QoS 1 or 2 PUBLISH with message id 0 was sent to
 the broker

---
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index abf4b01..c702c7d 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -69,6 +69,12 @@ MQTTGWPacket* MQTTSNPublishHandler::handlePublish(Client* client, MQTTSNPacket*
     pub.header.bits.retain = retained;
     tid = topicid.data.id;
 
+    if (msgId == 0 && qos > 0 && qos < 3)
+    {
+        WRITELOG("%s Invalid MsgId.%s %s\n", ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
+        return nullptr;
+    }
+
     Topic* topic = nullptr;
 
     if (topicid.type == MQTTSN_TOPIC_TYPE_SHORT)
-- 
2.43.0


From 268b6fc473b57ce7fe3c9a02e78a8bafad0a7ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:54 +0000
Subject: [PATCH 35/76] fix: REGISTER crashed the gateway when the client's
 topic table was full

---
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index c702c7d..7864280 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -229,10 +229,17 @@ void MQTTSNPublishHandler::handleRegister(Client* client, MQTTSNPacket* packet)
         topicid.data.long_.len = topicName.lenstring.len;
         topicid.data.long_.name = topicName.lenstring.data;
 
-        id = client->getTopics()->add(&topicid)->getTopicId();
+        Topic* topic = client->getTopics()->add(&topicid);
 
         MQTTSNPacket* regAck = new MQTTSNPacket();
-        regAck->setREGACK(id, msgId, MQTTSN_RC_ACCEPTED);
+        if (topic != nullptr)
+        {
+            regAck->setREGACK(topic->getTopicId(), msgId, MQTTSN_RC_ACCEPTED);
+        }
+        else
+        {
+            regAck->setREGACK(0, msgId, MQTTSN_RC_REJECTED_CONGESTED);
+        }
         Event* ev = new Event();
         ev->setClientSendEvent(client, regAck);
         _gateway->getClientSendQue()->post(ev);
-- 
2.43.0


From 605bca6eb47ee0972590836eb71159f50983911f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:54 +0000
Subject: [PATCH 36/76] fix: an aggregated PUBLISH was sent to the broker with
 message id 0 when no id could be assigned

---
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index 7864280..c2792e2 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -299,6 +299,14 @@ void MQTTSNPublishHandler::handleAggregatePublish(Client* client, MQTTSNPacket*
             {
                 msgId = _gateway->getAdapterManager()->getAggregater()->addMessageIdTable(client, packet->getMsgId());
             }
+
+            if (msgId == 0)
+            {
+                WRITELOG("%s MQTTSNPublishHandler can't create MessageIdTableElement  %s%s\n",
+                ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
+                delete publish;
+                return;
+            }
             publish->setMsgId(msgId);
         }
         Event* ev1 = new Event();
-- 
2.43.0


From 69c18f2a8c3d84207921e5309635b44898693552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:54 +0000
Subject: [PATCH 37/76] fix: the first byte of a short topic name was lost when
 the second is above 127

---
 MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
index 797e36b..ddc654a 100644
--- a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
@@ -108,8 +108,8 @@ MQTTGWPacket* MQTTSNSubscribeHandler::handleSubscribe(Client* client, MQTTSNPack
         topicstr[0] = topicFilter.data.short_name[0];
         topicstr[1] = topicFilter.data.short_name[1];
         topicstr[2] = 0;
-        topicId = topicFilter.data.short_name[0] << 8;
-        topicId |= topicFilter.data.short_name[1];
+        topicId = (uint8_t) topicFilter.data.short_name[0] << 8;
+        topicId |= (uint8_t) topicFilter.data.short_name[1];
         subscribe = new MQTTGWPacket();
         subscribe->setSUBSCRIBE(topicstr, (uint8_t) qos, (uint16_t) msgId);
     }
-- 
2.43.0


From 4a46c2eeb2790ffe50e45394d7ec15b59513ee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:54 +0000
Subject: [PATCH 38/76] fix: a rejecting SUBACK carried part of a pointer as
 topic id

---
 MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
index ddc654a..c97b2ef 100644
--- a/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWSubscribeHandler.cpp
@@ -129,7 +129,11 @@ MQTTGWPacket* MQTTSNSubscribeHandler::handleSubscribe(Client* client, MQTTSNPack
     }
 
     RespExit: MQTTSNPacket* sSuback = new MQTTSNPacket();
-    sSuback->setSUBACK(qos, topicFilter.data.id, msgId, MQTTSN_RC_REJECTED_INVALID_TOPIC_ID);
+    if (topicFilter.type == MQTTSN_TOPIC_TYPE_PREDEFINED)
+    {
+        topicId = topicFilter.data.id;
+    }
+    sSuback->setSUBACK(qos, topicId, msgId, MQTTSN_RC_REJECTED_INVALID_TOPIC_ID);
     evsuback = new Event();
     evsuback->setClientSendEvent(client, sSuback);
     _gateway->getClientSendQue()->post(evsuback);
-- 
2.43.0


From 98bf67b29b81f2fe0987f4678b5ea0317d091e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:54 +0000
Subject: [PATCH 39/76] fix: malformed packets from the broker were handled
 with uninitialised data

---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp   | 25 ++++++++++++++++----
 MQTTSNGateway/src/MQTTGWSubscribeHandler.cpp | 10 ++++++--
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index 20381f1..8055443 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -48,7 +48,10 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
     if (client->isSleep())
     {
         Publish pub;
-        packet->getPUBLISH(&pub);
+        if (packet->getPUBLISH(&pub) == 0)
+        {
+            return;
+        }
 
         WRITELOG(FORMAT_Y_G_G, currentDateTime(), packet->getName(),
         RIGHTARROW, client->getClientId(), "is sleeping. a message was saved.");
@@ -76,7 +79,10 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
     }
 
     Publish pub;
-    packet->getPUBLISH(&pub);
+    if (packet->getPUBLISH(&pub) == 0)
+    {
+        return;
+    }
 
     MQTTSNPacket* snPacket = new MQTTSNPacket();
 
@@ -199,7 +205,10 @@ void MQTTGWPublishHandler::replyACK(Client* client, Publish* pub, int type)
 void MQTTGWPublishHandler::handlePuback(Client* client, MQTTGWPacket* packet)
 {
     Ack ack;
-    packet->getAck(&ack);
+    if (packet->getAck(&ack) == 0)
+    {
+        return;
+    }
     TopicIdMapElement* topicId = client->getWaitedPubTopicId((uint16_t) ack.msgId);
     if (topicId)
     {
@@ -219,7 +228,10 @@ void MQTTGWPublishHandler::handlePuback(Client* client, MQTTGWPacket* packet)
 void MQTTGWPublishHandler::handleAck(Client* client, MQTTGWPacket* packet, int type)
 {
     Ack ack;
-    packet->getAck(&ack);
+    if (packet->getAck(&ack) == 0)
+    {
+        return;
+    }
 
     if (client->isActive() || client->isAwake())
     {
@@ -288,7 +300,10 @@ void MQTTGWPublishHandler::handleAggregatePubrel(Client* client, MQTTGWPacket* p
 void MQTTGWPublishHandler::handleAggregatePublish(Client* client, MQTTGWPacket* packet)
 {
     Publish pub;
-    packet->getPUBLISH(&pub);
+    if (packet->getPUBLISH(&pub) == 0)
+    {
+        return;
+    }
 
     string* topicName = new string(pub.topic, pub.topiclen); // topic deletes topicName when the topic is deleted
     Topic topic = Topic(topicName, MQTTSN_TOPIC_TYPE_NORMAL);
diff --git a/MQTTSNGateway/src/MQTTGWSubscribeHandler.cpp b/MQTTSNGateway/src/MQTTGWSubscribeHandler.cpp
index 9569442..9918f90 100644
--- a/MQTTSNGateway/src/MQTTGWSubscribeHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWSubscribeHandler.cpp
@@ -37,7 +37,10 @@ void MQTTGWSubscribeHandler::handleSuback(Client* client, MQTTGWPacket* packet)
     uint8_t returnCode;
     int qos = 0;
 
-    packet->getSUBACK(&msgId, &rc);
+    if (packet->getSUBACK(&msgId, &rc) == 0)
+    {
+        return;
+    }
     TopicIdMapElement* topicId = client->getWaitedSubTopicId(msgId);
 
     if (topicId)
@@ -64,7 +67,10 @@ void MQTTGWSubscribeHandler::handleSuback(Client* client, MQTTGWPacket* packet)
 void MQTTGWSubscribeHandler::handleUnsuback(Client* client, MQTTGWPacket* packet)
 {
     Ack ack;
-    packet->getAck(&ack);
+    if (packet->getAck(&ack) == 0)
+    {
+        return;
+    }
     MQTTSNPacket* snPacket = new MQTTSNPacket();
     snPacket->setUNSUBACK(ack.msgId);
     Event* evt = new Event();
-- 
2.43.0


From 14ac0d1764198e628659b09d391deb1eb3d1d565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:54 +0000
Subject: [PATCH 40/76] fix: a topic name of one character was sent as a short
 topic name with a byte that follows it

---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index 8055443..0e8380a 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -90,7 +90,7 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
     MQTTSN_topicid topicId;
     uint16_t id = 0;
 
-    if (pub.topiclen <= 2)
+    if (pub.topiclen == 2)
     {
         topicId.type = MQTTSN_TOPIC_TYPE_SHORT;
         *(topicId.data.short_name) = *pub.topic;
-- 
2.43.0


From f3f97eb3efc5184a0350e1d8fcd2f02ce5f55c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:54 +0000
Subject: [PATCH 41/76] fix: the pointer to the topic name was overwritten for
 a topic without a matching subscription

---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index 0e8380a..5cbd6e7 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -137,7 +137,6 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
                 topicId.type = MQTTSN_TOPIC_TYPE_NORMAL;
                 topicId.data.long_.len = pub.topiclen;
                 topicId.data.long_.name = pub.topic;
-                topicId.data.id = 0;
             }
 
             /* add the Topic and get a TopicId */
-- 
2.43.0


From 47672a5f8fe69e39e17493e783616a6c4c87a310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:15 +0000
Subject: [PATCH 42/76] fix: PUBREL for the aggregater was answered with a
 PUBCOMP of an uninitialised message id

---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index 5cbd6e7..60a3549 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -292,7 +292,7 @@ void MQTTGWPublishHandler::handleAggregateAck(Client* client, MQTTGWPacket* pack
 void MQTTGWPublishHandler::handleAggregatePubrel(Client* client, MQTTGWPacket* packet)
 {
     Publish pub;
-    packet->getPUBLISH(&pub);
+    pub.msgId = packet->getMsgId();
     replyACK(client, &pub, PUBCOMP);
 }
 
-- 
2.43.0


From 763c0ddd4d8b36aafef488d319c272af8626daa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:15 +0000
Subject: [PATCH 43/76] fix: a PUBLISH with a payload of more than 65535 bytes
 was sent to the client cut to its length modulo 65536

---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index 60a3549..dcfd493 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -84,6 +84,12 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
         return;
     }
 
+    if (pub.payloadlen > MQTTSNGW_MAX_PACKET_SIZE)
+    {
+        WRITELOG("%sMQTTGWPublishHandler PUBLISH message is too large and discarded.%s\n", ERRMSG_HEADER, ERRMSG_FOOTER);
+        return;
+    }
+
     MQTTSNPacket* snPacket = new MQTTSNPacket();
 
     /* create MQTTSN_topicid */
-- 
2.43.0


From 5dbc71590eef6cf56792c487f42c1b410f244dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:15 +0000
Subject: [PATCH 44/76] fix: a sleeping client that gave a new sleep duration
 was disconnected

---
 MQTTSNGateway/src/MQTTSNGWClient.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClient.cpp b/MQTTSNGateway/src/MQTTSNGWClient.cpp
index b209265..070163a 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClient.cpp
@@ -224,6 +224,8 @@ bool Client::erasable(void)
 
 void Client::updateStatus(MQTTSNPacket* packet)
 {
+    uint16_t duration = 0;
+
     if (((_status == Cstat_Disconnected) || (_status == Cstat_Lost)) && packet->getType() == MQTTSN_CONNECT)
     {
         setKeepAlive(packet);
@@ -246,7 +248,6 @@ void Client::updateStatus(MQTTSNPacket* packet)
             }
             break;
         case MQTTSN_DISCONNECT:
-            uint16_t duration;
             packet->getDISCONNECT(&duration);
             if (duration)
             {
@@ -269,7 +270,15 @@ void Client::updateStatus(MQTTSNPacket* packet)
             _status = Cstat_Active;
             break;
         case MQTTSN_DISCONNECT:
-            disconnected();
+            packet->getDISCONNECT(&duration);
+            if (duration)
+            {
+                _status = Cstat_Asleep;
+            }
+            else
+            {
+                disconnected();
+            }
             break;
         case MQTTSN_PINGREQ:
             _status = Cstat_Awake;
-- 
2.43.0


From b5845d5e839f38616460dc518a607e3c381171b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:15 +0000
Subject: [PATCH 45/76] fix: the message id table used its elements after
 deleting them

---
 MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
index 8db2cb1..40e567a 100644
--- a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
@@ -35,10 +35,10 @@ MessageIdTable::~MessageIdTable()
         MessageIdElement* p = _tail;
         while (p)
         {
-            MessageIdElement* pPrev = p;
+            MessageIdElement* pPrev = p->_prev;
             delete p;
             _cnt--;
-            p = pPrev->_prev;
+            p = pPrev;
         }
         _head = _tail = nullptr;
     }
-- 
2.43.0


From 86438ec25c1ddd1cf70fb9ced119ab889dbcbb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:15 +0000
Subject: [PATCH 46/76] fix: a message id of the aggregater still in use was
 given to another message after the ids wrapped

---
 MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
index 40e567a..cf4f3f7 100644
--- a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
@@ -70,7 +70,10 @@ MessageIdElement* MessageIdTable::add(Aggregater* aggregater, Client* client, ui
         MessageIdElement* p = find(client, clientMsgId);
         if (p == nullptr)
         {
-            elm->_msgId = aggregater->msgId();
+            do
+            {
+                elm->_msgId = aggregater->msgId();
+            } while (find(elm->_msgId) != nullptr);  // a message id in use must not be given again
             p = _tail;
             _tail = elm;
             elm->_prev = p;
-- 
2.43.0


From 5cd3f3ec4e7a75466d5706c4f4aa3e5934bb588f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:35 +0000
Subject: [PATCH 47/76] fix: an aggregate topic used its clients' elements
 after deleting them

---
 MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
index e5703d6..828409c 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
@@ -66,9 +66,9 @@ AggregateTopicElement::~AggregateTopicElement(void)
         ClientTopicElement* p = _tail;
         while (p)
         {
-            ClientTopicElement* pPrev = p;
+            ClientTopicElement* pPrev = p->_prev;
             delete p;
-            p = pPrev->_prev;
+            p = pPrev;
         }
         _head = _tail = nullptr;
     }
-- 
2.43.0


From f4cc27a64e34e8ce360afb5fc51a35291b9e6e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:35 +0000
Subject: [PATCH 48/76] fix: UNSUBSCRIBE of a topic not in the aggregate topic
 table dereferenced a null pointer

---
 MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
index 828409c..2d61ff7 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
@@ -223,10 +223,10 @@ void AggregateTopicTable::erase(Topic* topic, Client* client)
     if (elm != nullptr)
     {
         elm->eraseClient(client);
-    }
-    if (elm->_head == nullptr)
-    {
-        erase(elm);
+        if (elm->_head == nullptr)
+        {
+            erase(elm);
+        }
     }
     _mutex.unlock();
     return;
-- 
2.43.0


From 4e1d701eeb52e45537f8995754d5b31bf68de3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:35 +0000
Subject: [PATCH 49/76] fix: erasing in the middle of an aggregate topic list
 left a pointer to the erased element

---
 MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
index 2d61ff7..3632cfa 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
@@ -156,6 +156,7 @@ void AggregateTopicElement::eraseClient(Client* client)
         else if (p->_next != nullptr)  // middle
         {
             p->_prev->_next = p->_next;
+            p->_next->_prev = p->_prev;
         }
         else    // tail
         {
@@ -251,6 +252,7 @@ void AggregateTopicTable::erase(AggregateTopicElement* elmTopic)
         else if (elmTopic->_next != nullptr)  // middle
         {
             elmTopic->_prev->_next = elmTopic->_next;
+            elmTopic->_next->_prev = elmTopic->_prev;
         }
         else    // tail
         {
-- 
2.43.0


From baa987b68cd0c3a1930d710e76c4e4629b50a053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:48 +0000
Subject: [PATCH 50/76] fix: PUBACK to a PUBLISH with a short topic name
 carried the two bytes of the name swapped

---
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index c2792e2..dfe6d4b 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -81,6 +81,7 @@ MQTTGWPacket* MQTTSNPublishHandler::handlePublish(Client* client, MQTTSNPacket*
     {
         shortTopic[0] = topicid.data.short_name[0];
         shortTopic[1] = topicid.data.short_name[1];
+        tid = (uint8_t) shortTopic[0] << 8 | (uint8_t) shortTopic[1];
         pub.topic = shortTopic;
         pub.topiclen = 2;
     }
-- 
2.43.0


From 5aea0151cd62b8582136ba35901a7201329910e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 51/76] fix: WILLTOPIC and WILLMSG of a connecting client were
 answered with DISCONNECT

---
 MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp | 1 +
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp           | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
index 8e81351..081acb2 100644
--- a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
@@ -69,6 +69,7 @@ void MQTTSNAggregateConnectionHandler::handleConnect(Client* client, MQTTSNPacke
 
     /* CONNECT was not sent yet. prepare Connect data */
 
+    connectData->flags.bits.will = data.willFlag;
     client->setSessionStatus(false);
     if (data.cleansession)
     {
diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
index f42ec6f..1bb90c5 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
@@ -150,7 +150,11 @@ void ClientRecvTask::run()
         {
             log(client, packet, 0);
 
-            if (client->isDisconnect() && packet->getType() != MQTTSN_CONNECT)
+            /* WILLTOPIC and WILLMSG are parts of the connection procedure */
+            bool isWill = client->getConnectData()->flags.bits.will
+                    && (packet->getType() == MQTTSN_WILLTOPIC || packet->getType() == MQTTSN_WILLMSG);
+
+            if (client->isDisconnect() && packet->getType() != MQTTSN_CONNECT && !isWill)
             {
                 WRITELOG("%s MQTTSNGWClientRecvTask %s is not connecting.%s\n",
                 ERRMSG_HEADER, client->getClientId(), ERRMSG_FOOTER);
-- 
2.43.0


From 4a53dafdbbf47d57a7af4ab55762d150d4904a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 52/76] fix: an aggregated client with a will stayed
 disconnected after its CONNACK

---
 MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
index 081acb2..1ab2b46 100644
--- a/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNAggregateConnectionHandler.cpp
@@ -141,6 +141,7 @@ void MQTTSNAggregateConnectionHandler::handleWillmsg(Client* client, MQTTSNPacke
             return;
         }
         client->setWillMsg(willmsg);
+        client->setWaitWillMsgFlg(false);
 
         /* Send CONNACK to the client */
         MQTTSNPacket* packet = new MQTTSNPacket();
@@ -149,6 +150,7 @@ void MQTTSNAggregateConnectionHandler::handleWillmsg(Client* client, MQTTSNPacke
         ev->setClientSendEvent(client, packet);
         _gateway->getClientSendQue()->post(ev);
 
+        client->connackSended(MQTTSN_RC_ACCEPTED);
         sendStoredPublish(client);
         return;
     }
-- 
2.43.0


From fec1145873579f029f16affe587ef17e0ba7ec57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 53/76] fix: a malformed CONNACK was handled with uninitialised
 data

---
 MQTTSNGateway/src/MQTTGWConnectionHandler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp b/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp
index 621b950..96c8063 100644
--- a/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp
@@ -34,7 +34,10 @@ void MQTTGWConnectionHandler::handleConnack(Client* client, MQTTGWPacket* packet
 {
     uint8_t rc = MQTT_SERVER_UNAVAILABLE;
     Connack resp;
-    packet->getCONNACK(&resp);
+    if (packet->getCONNACK(&resp) == 0)
+    {
+        return;
+    }
 
     /* convert MQTT ReturnCode to MQTT-SN one */
     if (resp.rc == MQTT_CONNECTION_ACCEPTED)
-- 
2.43.0


From a8689afd9c4b7904321864c1a9a50f1a7fc62f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 54/76] fix: the client was not told when its connection to the
 broker was lost

---
 MQTTSNGateway/src/MQTTGWConnectionHandler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp b/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp
index 96c8063..8e37179 100644
--- a/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWConnectionHandler.cpp
@@ -98,4 +98,5 @@ void MQTTGWConnectionHandler::handleDisconnect(Client* client, MQTTGWPacket* pac
     client->getNetwork()->close();
     Event* ev1 = new Event();
     ev1->setClientSendEvent(client, snPacket);
+    _gateway->getClientSendQue()->post(ev1);
 }
-- 
2.43.0


From fba8d55c39e016589b6511e1167a51b34fc66e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:15 +0000
Subject: [PATCH 55/76] fix: PINGREQ was not answered when the stored messages
 needed no REGISTER

---
 MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
index 69f3b41..9a15e76 100644
--- a/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWConnectionHandler.cpp
@@ -282,6 +282,18 @@ void MQTTSNConnectionHandler::handlePingreq(Client* client, MQTTSNPacket* packet
     if ((client->isSleep() || client->isAwake()) && client->getClientSleepPacket())
     {
         sendStoredPublish(client);
+
+        /* handle PINGREQ again after the stored messages */
+        MQTTSNString clientId = MQTTSNString_initializer;
+        MQTTSNPacket* again = new MQTTSNPacket();
+        again->setPINGREQ(&clientId);
+        Event* ev = new Event();
+        ev->setClientRecvEvent(client, again);
+        _gateway->getPacketEventQue()->post(ev);
+    }
+    else if (client->isAwake() && !client->isHoldPingReqest() && client->getWaitREGACKPacketList()->getCount() > 0)
+    {
+        /* PINGREQ is sent when stored messages have been sent after their REGACKs */
         client->holdPingRequest();
     }
     else
-- 
2.43.0


From d1345f177455b8c1aeb3425ed7d3dee84ea0bbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:23 +0000
Subject: [PATCH 56/76] fix: a message whose REGACK was lost was sent in place
 of a later one

---
 MQTTSNGateway/src/MQTTSNGWClient.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWClient.cpp b/MQTTSNGateway/src/MQTTSNGWClient.cpp
index 070163a..9eb6c67 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClient.cpp
@@ -630,6 +630,14 @@ WaitREGACKPacketList::~WaitREGACKPacketList()
 
 int WaitREGACKPacketList::setPacket(MQTTSNPacket* packet, uint16_t REGACKMsgId)
 {
+    /* REGACK of an earlier REGISTER with this id has never come */
+    MQTTSNPacket* lost = getPacket(REGACKMsgId);
+    if (lost != nullptr)
+    {
+        erase(REGACKMsgId);
+        delete lost;
+    }
+
     waitREGACKPacket* elm = new waitREGACKPacket(packet, REGACKMsgId);
     if (elm == nullptr)
     {
-- 
2.43.0


From ee2ebb568fcda500f143be3496729eaa93fa51d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:23 +0000
Subject: [PATCH 57/76] fix: aggregated messages of QoS 1 and 2 were never
 acknowledged to the broker

---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index dcfd493..f9f140e 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -200,6 +200,11 @@ void MQTTGWPublishHandler::handlePublish(Client* client, MQTTGWPacket* packet)
 
 void MQTTGWPublishHandler::replyACK(Client* client, Publish* pub, int type)
 {
+    if (client->isAggregated())
+    {
+        return;  // acknowledged by handleAggregatePublish()
+    }
+
     MQTTGWPacket* pubAck = new MQTTGWPacket();
     pubAck->setAck(type, (uint16_t) pub->msgId);
     Event* ev1 = new Event();
@@ -310,6 +315,16 @@ void MQTTGWPublishHandler::handleAggregatePublish(Client* client, MQTTGWPacket*
         return;
     }
 
+    /* clients acknowledge to the gateway, the gateway to the broker */
+    if (pub.header.bits.qos == 1)
+    {
+        replyACK(client, &pub, PUBACK);
+    }
+    else if (pub.header.bits.qos == 2)
+    {
+        replyACK(client, &pub, PUBREC);
+    }
+
     string* topicName = new string(pub.topic, pub.topiclen); // topic deletes topicName when the topic is deleted
     Topic topic = Topic(topicName, MQTTSN_TOPIC_TYPE_NORMAL);
 
-- 
2.43.0


From e2d16d8fc14af3de3a31d01a8ce08fe9e53e5538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:23 +0000
Subject: [PATCH 58/76] fix: QoS 2 messages of aggregated clients were never
 released

---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp   |  2 +-
 MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp |  4 +--
 MQTTSNGateway/src/MQTTSNGWAdapterManager.h   |  2 +-
 MQTTSNGateway/src/MQTTSNGWAggregater.cpp     |  4 +--
 MQTTSNGateway/src/MQTTSNGWAggregater.h       |  2 +-
 MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp |  7 +++--
 MQTTSNGateway/src/MQTTSNGWMessageIdTable.h   |  2 +-
 MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp | 27 ++++++++++++++++++++
 8 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index f9f140e..2be533a 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -292,7 +292,7 @@ void MQTTGWPublishHandler::handleAggregateAck(Client* client, MQTTGWPacket* pack
 {
     uint16_t msgId = packet->getMsgId();
     uint16_t clientMsgId = 0;
-    Client* newClient = _gateway->getAdapterManager()->convertClient(msgId, &clientMsgId);
+    Client* newClient = _gateway->getAdapterManager()->convertClient(msgId, &clientMsgId, type != PUBREC);
     if (newClient != nullptr)
     {
         packet->setMsgId((int) clientMsgId);
diff --git a/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp b/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp
index 9a72a70..cf4cb4f 100644
--- a/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAdapterManager.cpp
@@ -173,9 +173,9 @@ void AdapterManager::checkConnection(void)
     }
 }
 
-Client* AdapterManager::convertClient(uint16_t msgId, uint16_t* clientMsgId)
+Client* AdapterManager::convertClient(uint16_t msgId, uint16_t* clientMsgId, bool erase)
 {
-    return _aggregater->convertClient(msgId, clientMsgId);
+    return _aggregater->convertClient(msgId, clientMsgId, erase);
 }
 
 bool AdapterManager::isAggregaterActive(void)
diff --git a/MQTTSNGateway/src/MQTTSNGWAdapterManager.h b/MQTTSNGateway/src/MQTTSNGWAdapterManager.h
index 42674be..d368652 100644
--- a/MQTTSNGateway/src/MQTTSNGWAdapterManager.h
+++ b/MQTTSNGateway/src/MQTTSNGWAdapterManager.h
@@ -48,7 +48,7 @@ public:
 
     bool isAggregatedClient(Client* client);
     Client* getClient(Client* client);
-    Client* convertClient(uint16_t msgId, uint16_t* clientMsgId);
+    Client* convertClient(uint16_t msgId, uint16_t* clientMsgId, bool erase = true);
     int unicastToClient(Client* client, MQTTSNPacket* packet,
             ClientSendTask* task);
     bool isAggregaterActive(void);
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
index 17da79f..b09bbb8 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
@@ -59,9 +59,9 @@ uint16_t Aggregater::msgId(void)
     return Adapter::getSecureClient()->getNextPacketId();
 }
 
-Client* Aggregater::convertClient(uint16_t msgId, uint16_t* clientMsgId)
+Client* Aggregater::convertClient(uint16_t msgId, uint16_t* clientMsgId, bool erase)
 {
-    return _msgIdTable.getClientMsgId(msgId, clientMsgId);
+    return _msgIdTable.getClientMsgId(msgId, clientMsgId, erase);
 }
 
 uint16_t Aggregater::addMessageIdTable(Client* client, uint16_t msgId)
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.h b/MQTTSNGateway/src/MQTTSNGWAggregater.h
index 490b71f..4562129 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.h
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.h
@@ -45,7 +45,7 @@ public:
 
     const char* getClientId(SensorNetAddress* addr);
     Client* getClient(SensorNetAddress* addr);
-    Client* convertClient(uint16_t msgId, uint16_t* clientMsgId);
+    Client* convertClient(uint16_t msgId, uint16_t* clientMsgId, bool erase = true);
     uint16_t addMessageIdTable(Client* client, uint16_t msgId);
     uint16_t getMsgId(Client* client, uint16_t clientMsgId);
 
diff --git a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
index cf4f3f7..a733f38 100644
--- a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.cpp
@@ -118,7 +118,7 @@ MessageIdElement* MessageIdTable::find(Client* client, uint16_t clientMsgId)
     return p;
 }
 
-Client* MessageIdTable::getClientMsgId(uint16_t msgId, uint16_t* clientMsgId)
+Client* MessageIdTable::getClientMsgId(uint16_t msgId, uint16_t* clientMsgId, bool erase)
 {
     Client* clt = nullptr;
     *clientMsgId = 0;
@@ -128,7 +128,10 @@ Client* MessageIdTable::getClientMsgId(uint16_t msgId, uint16_t* clientMsgId)
     {
         clt = p->_client;
         *clientMsgId = p->_clientMsgId;
-        clear(p);
+        if (erase)
+        {
+            clear(p);
+        }
     }
     _mutex.unlock();
     return clt;
diff --git a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h
index 2f0b5e6..8ca1c82 100644
--- a/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h
+++ b/MQTTSNGateway/src/MQTTSNGWMessageIdTable.h
@@ -39,7 +39,7 @@ public:
 
     MessageIdElement* add(Aggregater* aggregater, Client* client,
             uint16_t clientMsgId);
-    Client* getClientMsgId(uint16_t msgId, uint16_t* clientMsgId);
+    Client* getClientMsgId(uint16_t msgId, uint16_t* clientMsgId, bool erase = true);
     uint16_t getMsgId(Client* client, uint16_t clientMsgId);
     void erase(uint16_t msgId);
     void clear(MessageIdElement* elm);
diff --git a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
index dfe6d4b..e4ed211 100644
--- a/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPublishHandler.cpp
@@ -332,4 +332,31 @@ void MQTTSNPublishHandler::handleAggregateAck(Client* client, MQTTSNPacket* pack
         ev->setClientSendEvent(client, ackPacket);
         _gateway->getClientSendQue()->post(ev);
     }
+    else if (type == MQTTSN_PUBREL)
+    {
+        uint16_t msgId;
+
+        if (packet->getACK(&msgId) == 0)
+        {
+            return;
+        }
+
+        Event* ev = new Event();
+        uint16_t brokerMsgId = _gateway->getAdapterManager()->getAggregater()->getMsgId(client, msgId);
+
+        if (brokerMsgId > 0)
+        {
+            MQTTGWPacket* ackPacket = new MQTTGWPacket();
+            ackPacket->setAck(PUBREL, brokerMsgId);
+            ev->setBrokerSendEvent(client, ackPacket);
+            _gateway->getBrokerSendQue()->post(ev);
+        }
+        else
+        {
+            MQTTSNPacket* ackPacket = new MQTTSNPacket();
+            ackPacket->setPUBCOMP(msgId);
+            ev->setClientSendEvent(client, ackPacket);
+            _gateway->getClientSendQue()->post(ev);
+        }
+    }
 }
-- 
2.43.0


From a0e79baa0a9f381892b2759be648761883433a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:23 +0000
Subject: [PATCH 59/76] fix: clients with overlapping filters lost messages
 from the aggregater

---
 MQTTSNGateway/src/MQTTGWPublishHandler.cpp    | 47 ++++++++++++-------
 .../src/MQTTSNGWAggregateTopicTable.cpp       | 22 +++++++--
 .../src/MQTTSNGWAggregateTopicTable.h         |  3 +-
 MQTTSNGateway/src/MQTTSNGWAggregater.cpp      |  4 +-
 MQTTSNGateway/src/MQTTSNGWAggregater.h        |  2 +-
 5 files changed, 54 insertions(+), 24 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
index 2be533a..33cd5ac 100644
--- a/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
+++ b/MQTTSNGateway/src/MQTTGWPublishHandler.cpp
@@ -328,28 +328,41 @@ void MQTTGWPublishHandler::handleAggregatePublish(Client* client, MQTTGWPacket*
     string* topicName = new string(pub.topic, pub.topiclen); // topic deletes topicName when the topic is deleted
     Topic topic = Topic(topicName, MQTTSN_TOPIC_TYPE_NORMAL);
 
-    // ToDo: need to refactor
-    ClientTopicElement* elm = _gateway->getAdapterManager()->getAggregater()->getClientElement(&topic);
+    /* each client gets the message once, even if several of its filters match */
+    Aggregater* aggregater = _gateway->getAdapterManager()->getAggregater();
+    AggregateTopicElement* first = aggregater->findTopic(&topic);
 
-    while (elm != nullptr)
+    for (AggregateTopicElement* filter = first; filter != nullptr; filter = aggregater->findTopic(&topic, filter))
     {
-        Client* devClient = elm->getClient();
-        MQTTGWPacket* msg = new MQTTGWPacket();
-        *msg = *packet;
-
-        if (msg->getType() == 0)
+        for (ClientTopicElement* elm = filter->getFirstClientTopicElement(); elm != nullptr;
+                elm = elm->getNextClientElement())
         {
-            WRITELOG("%s MQTTGWPublishHandler::handleAggregatePublish can't allocate memories for Packet.%s\n",
-            ERRMSG_HEADER, ERRMSG_FOOTER);
-            delete msg;
-            break;
-        }
+            Client* devClient = elm->getClient();
+            AggregateTopicElement* earlier = first;
+            while (earlier != filter && earlier->find(devClient) == nullptr)
+            {
+                earlier = aggregater->findTopic(&topic, earlier);
+            }
+            if (earlier != filter)
+            {
+                continue;
+            }
 
-        Event* ev = new Event();
-        ev->setBrokerRecvEvent(devClient, msg);
-        _gateway->getPacketEventQue()->post(ev);
+            MQTTGWPacket* msg = new MQTTGWPacket();
+            *msg = *packet;
+
+            if (msg->getType() == 0)
+            {
+                WRITELOG("%s MQTTGWPublishHandler::handleAggregatePublish can't allocate memories for Packet.%s\n",
+                ERRMSG_HEADER, ERRMSG_FOOTER);
+                delete msg;
+                return;
+            }
 
-        elm = elm->getNextClientElement();
+            Event* ev = new Event();
+            ev->setBrokerRecvEvent(devClient, msg);
+            _gateway->getPacketEventQue()->post(ev);
+        }
     }
 }
 
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
index 3632cfa..4048b13 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.cpp
@@ -186,7 +186,7 @@ AggregateTopicElement* AggregateTopicTable::add(Topic* topic, Client* client)
 {
     AggregateTopicElement* elm = nullptr;
     _mutex.lock();
-    elm = getAggregateTopicElement(topic);
+    elm = find(topic);
     if (elm != nullptr)
     {
         if (elm->find(client) == nullptr)
@@ -219,7 +219,7 @@ void AggregateTopicTable::erase(Topic* topic, Client* client)
     AggregateTopicElement* elm = nullptr;
 
     _mutex.lock();
-    elm = getAggregateTopicElement(topic);
+    elm = find(topic);
 
     if (elm != nullptr)
     {
@@ -263,10 +263,26 @@ void AggregateTopicTable::erase(AggregateTopicElement* elmTopic)
     }
 }
 
-AggregateTopicElement* AggregateTopicTable::getAggregateTopicElement(Topic* topic)
+AggregateTopicElement* AggregateTopicTable::find(Topic* topic)
 {
     AggregateTopicElement* elm = _head;
 
+    while (elm != nullptr)
+    {
+        if (elm->_topic->getTopicName()->compare(*topic->getTopicName()) == 0)
+        {
+            break;
+        }
+        elm = elm->_next;
+    }
+    return elm;
+}
+
+/* the first element, after the given one, whose filter matches the topic */
+AggregateTopicElement* AggregateTopicTable::getAggregateTopicElement(Topic* topic, AggregateTopicElement* after)
+{
+    AggregateTopicElement* elm = after ? after->_next : _head;
+
     while (elm != nullptr)
     {
         if (elm->_topic->isMatch(topic->_topicName))
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h
index 6293c0d..bd2739d 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h
+++ b/MQTTSNGateway/src/MQTTSNGWAggregateTopicTable.h
@@ -39,7 +39,7 @@ public:
     ~AggregateTopicTable();
 
     AggregateTopicElement* add(Topic* topic, Client* client);
-    AggregateTopicElement* getAggregateTopicElement(Topic* topic);
+    AggregateTopicElement* getAggregateTopicElement(Topic* topic, AggregateTopicElement* after = nullptr);
     ClientTopicElement* getClientElement(Topic* topic);
     void erase(Topic* topic, Client* client);
     void clear(void);
@@ -47,6 +47,7 @@ public:
     void print(void);
 
 private:
+    AggregateTopicElement* find(Topic* topic);
     void erase(AggregateTopicElement* elmTopic);
     Mutex _mutex;
     AggregateTopicElement* _head { nullptr };
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
index b09bbb8..e088865 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.cpp
@@ -94,9 +94,9 @@ void Aggregater::removeAggregateTopic(Topic* topic, Client* client)
     _topicTable.erase(topic, client);
 }
 
-AggregateTopicElement* Aggregater::findTopic(Topic* topic)
+AggregateTopicElement* Aggregater::findTopic(Topic* topic, AggregateTopicElement* after)
 {
-    return _topicTable.getAggregateTopicElement(topic);
+    return _topicTable.getAggregateTopicElement(topic, after);
 }
 
 ClientTopicElement* Aggregater::getClientElement(Topic* topic)
diff --git a/MQTTSNGateway/src/MQTTSNGWAggregater.h b/MQTTSNGateway/src/MQTTSNGWAggregater.h
index 4562129..e9e6220 100644
--- a/MQTTSNGateway/src/MQTTSNGWAggregater.h
+++ b/MQTTSNGateway/src/MQTTSNGWAggregater.h
@@ -53,7 +53,7 @@ public:
     ClientTopicElement* getNextClientElement(ClientTopicElement* clientElement);
     Client* getClient(ClientTopicElement* clientElement);
 
-    AggregateTopicElement* findTopic(Topic* topic);
+    AggregateTopicElement* findTopic(Topic* topic, AggregateTopicElement* after = nullptr);
     AggregateTopicElement* addAggregateTopic(Topic* topic, Client* client);
 
     void removeAggregateTopic(Topic* topic, Client* client);
-- 
2.43.0


From a5daf872a15699bb4690d2ddab0d02318faf05b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:30 +0000
Subject: [PATCH 60/76] fix: a client is found by its whole client id, not by a
 prefix of it

---
 MQTTSNGateway/src/MQTTSNGWClientList.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.cpp b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
index cc5006f..6af0370 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
@@ -313,15 +313,18 @@ Client* ClientList::getClient(MQTTSNString* clientId)
     _mutex.lock();
     Client* client = _firstClient;
     const char* clID = clientId->cstring;
+    size_t len = MQTTSNstrlen(*clientId);
 
     if (clID == nullptr)
     {
         clID = clientId->lenstring.data;
     }
 
-    while (client != nullptr)
+    while (client != nullptr && len > 0)
     {
-        if (strncmp((const char*) client->getClientId(), clID, MQTTSNstrlen(*clientId)) == 0)
+        const char* id = (const char*) client->getClientId();
+
+        if (strlen(id) == len && memcmp(id, clID, len) == 0)
         {
             _mutex.unlock();
             return client;
-- 
2.43.0


From 104a47c27a638f465574d2906b2cf52b1bd1268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:30 +0000
Subject: [PATCH 61/76] fix: a predefined topic belongs to the client that has
 the client id

---
 MQTTSNGateway/src/MQTTSNGWClientList.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientList.cpp b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
index 6af0370..fb6d902 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientList.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientList.cpp
@@ -427,7 +427,10 @@ Client* ClientList::createPredefinedTopic(MQTTSNString* clientId, string topicNa
             return nullptr;
         }
 
-        client = createClient(NULL, clientId, aggregate);
+        if (client == nullptr)
+        {
+            client = createClient(NULL, clientId, aggregate ? AGGREGATER_TYPE : TRANSPEARENT_TYPE);
+        }
 
         if (client == nullptr)
         {
-- 
2.43.0


From 4a07fd76343842fd8aeff30d0801542d0aa7ea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:30 +0000
Subject: [PATCH 62/76] fix: with ClientAuthentication a client which is not
 registered cannot connect

---
 MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
index 1bb90c5..e2140b1 100644
--- a/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClientRecvTask.cpp
@@ -196,7 +196,7 @@ void ClientRecvTask::run()
 
                 if (fwd != nullptr)
                 {
-                    if (client == nullptr)
+                    if (client == nullptr && !clientList->isAuthorized())
                     {
                         /* create a new client */
                         client = clientList->createClient(0, &data.clientID, clientType);
@@ -217,7 +217,7 @@ void ClientRecvTask::run()
                             client->setClientAddress(&senderAddr);
                         }
                     }
-                    else
+                    else if (!clientList->isAuthorized())
                     {
                         /* create a new client */
                         client = clientList->createClient(&senderAddr, &data.clientID, clientType);
-- 
2.43.0


From 6d2994f19ff8d48e174a880b2bde5c9d12ddf671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:49 +0000
Subject: [PATCH 63/76] fix: the aggregater did not notice that the broker
 connection is lost

---
 MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp b/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp
index 08d1cfb..189b45f 100644
--- a/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWPacketHandleTask.cpp
@@ -268,6 +268,9 @@ void PacketHandleTask::aggregatePacketHandler(Client*client, MQTTGWPacket* packe
     case UNSUBACK:
         _mqttSubscribe->handleAggregateUnsuback(client, packet);
         break;
+    case DISCONNECT:
+        client->disconnected(); // The connection is lost. Adapter::checkConnection() connects again
+        break;
     default:
         break;
     }
-- 
2.43.0


From b448b81f77e3653096c4183dfd42b4d637b102e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:30 +0000
Subject: [PATCH 64/76] fix: answers to the secure connection of an adapter
 went to the other one

---
 MQTTSNGateway/src/MQTTSNGWAdapter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWAdapter.cpp b/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
index 8e0e347..70c7db7 100644
--- a/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWAdapter.cpp
@@ -164,7 +164,7 @@ void Adapter::checkConnection(void)
 void Adapter::send(MQTTSNPacket* packet, Client* client)
 {
     Proxy* proxy = _proxy;
-    if (client->isSecureNetwork() && !_isSecure)
+    if (client->isSecureNetwork())
     {
         if (_isSecure)
         {
-- 
2.43.0


From c8e01c7412dcd095c004ed7f1471a73fbc69617a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:30 +0000
Subject: [PATCH 65/76] fix: packets of an aggregated client behind a forwarder
 did not go through the aggregater

---
 MQTTSNGateway/src/MQTTSNGWClient.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWClient.cpp b/MQTTSNGateway/src/MQTTSNGWClient.cpp
index 9eb6c67..ec58a99 100644
--- a/MQTTSNGateway/src/MQTTSNGWClient.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWClient.cpp
@@ -204,7 +204,12 @@ void Client::setKeepAlive(MQTTSNPacket* packet)
 void Client::setForwarder(Forwarder* forwarder)
 {
     _forwarder = forwarder;
-    _clientType = Ctype_Forwarded;
+
+    /* an aggregated client remains one */
+    if (_clientType == Ctype_Normal)
+    {
+        _clientType = Ctype_Forwarded;
+    }
 }
 
 Forwarder* Client::getForwarder(void)
-- 
2.43.0


From b0c442e7415ad4e2bd24cd4a92a5012d4f8a5931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:51 +0000
Subject: [PATCH 66/76] fix: after a failed name lookup the addresses of the
 broker were freed twice

---
 MQTTSNGateway/src/linux/Network.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index c4c5a52..84844b2 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -87,6 +87,7 @@ bool TCPStack::bind(const char* service)
 	if (_addrinfo)
 	{
 		freeaddrinfo(_addrinfo);
+		_addrinfo = 0;
 	}
 	int err = getaddrinfo(0, service, &hints, &_addrinfo);
 	if (err)
@@ -170,6 +171,7 @@ bool TCPStack::connect(const char* host, const char* service)
 	if (_addrinfo)
 	{
 		freeaddrinfo(_addrinfo);
+		_addrinfo = 0;
 	}
 
 	int err = getaddrinfo(host, service, &hints, &_addrinfo);
-- 
2.43.0


From ddc0ffdc56d8f9d61ec16f74ee24d6bd7bbd8866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:51 +0000
Subject: [PATCH 67/76] fix: a TLS read that had to wait stored what it
 received in front of the buffer

---
 MQTTSNGateway/src/linux/Network.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index 84844b2..5a8e4bb 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -571,7 +571,6 @@ loop:
 		}
 	} while (SSL_pending(_ssl) && !readBlocked);
 
-	bpos += rlen;
 	while (true)
 	{
 		FD_ZERO(&rset);
-- 
2.43.0


From 604b7487247824b66adaf03b862ca2e46f5b5d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:51 +0000
Subject: [PATCH 68/76] fix: a broker certificate without a common name was
 compared with uninitialised memory, and a wildcard with what follows the host
 name

---
 MQTTSNGateway/src/linux/Network.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index 5a8e4bb..8c31e9b 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -389,11 +389,22 @@ bool Network::connect(const char* host, const char* port, const char* caPath, co
 		}
 
 		peer = SSL_get_peer_certificate(_ssl);
-		X509_NAME_get_text_by_NID(X509_get_subject_name(peer), NID_commonName, peer_CN, 256);
+		int cnLen = -1;
+		if (peer != nullptr)
+		{
+			cnLen = X509_NAME_get_text_by_NID(X509_get_subject_name(peer), NID_commonName, peer_CN, 256);
+		}
+		if (cnLen < 0 || strlen(peer_CN) != (size_t) cnLen)
+		{
+			WRITELOG("SSL_get_peer_certificate() error: the certificate of the Broker has no valid common name\n");
+			SSL_free(_ssl);
+			_ssl = 0;
+			throw false;
+		}
 		char* pos = peer_CN;
-		if ( *pos == '*')
+		if (pos[0] == '*' && pos[1] == '.')
 		{
-			while (*host++ != '.');
+			while (*host && *host++ != '.');
 			pos += 2;
 		}
 		if ( strcmp(host, pos))
-- 
2.43.0


From 86adf2937a573f1ada0e9061a95eb592aa3498cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:51 +0000
Subject: [PATCH 69/76] fix: a connection was still valid when the TLS session
 that replaced a lost one could not be made

---
 MQTTSNGateway/src/linux/Network.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index 8c31e9b..f83317e 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -620,9 +620,9 @@ void Network::close(void)
 			SSL_free(_ssl);
 			_numOfInstance--;
 			_ssl = 0;
-			_sslValid = false;
-			_busy = false;
 		}
+		_sslValid = false;
+		_busy = false;
 		if (_session && _numOfInstance == 0)
 		{
 			SSL_SESSION_free(_session);
-- 
2.43.0


From 9f0bb1f916c93a8e4c2ecd0b83d4300d9eeaea5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:51 +0000
Subject: [PATCH 70/76] fix: after a certificate file could not be loaded the
 next TLS connection was made without it

---
 MQTTSNGateway/src/linux/Network.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index f83317e..4987827 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -317,6 +317,8 @@ bool Network::connect(const char* host, const char* port, const char* caPath, co
 			{
 				ERR_error_string_n(ERR_get_error(), errmsg, sizeof(errmsg));
 				WRITELOG("SSL_CTX_load_verify_locations() %s\n", errmsg);
+				SSL_CTX_free(_ctx);
+				_ctx = 0;
 				throw false;
 			}
 
@@ -326,6 +328,8 @@ bool Network::connect(const char* host, const char* port, const char* caPath, co
 				{
 					ERR_error_string_n(ERR_get_error(), errmsg, sizeof(errmsg));
 					WRITELOG("SSL_CTX_use_certificate_file() %s %s\n", certkey, errmsg);
+					SSL_CTX_free(_ctx);
+					_ctx = 0;
 					throw false;
 				}
 			}
@@ -335,6 +339,8 @@ bool Network::connect(const char* host, const char* port, const char* caPath, co
 				{
 					ERR_error_string_n(ERR_get_error(), errmsg, sizeof(errmsg));
 					WRITELOG("SSL_use_PrivateKey_file() %s %s\n", prvkey, errmsg);
+					SSL_CTX_free(_ctx);
+					_ctx = 0;
 					throw false;
 				}
 			}
-- 
2.43.0


From e9381b83ca1287ca6d3f0450d518f521a12e0b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:51 +0000
Subject: [PATCH 71/76] fix: a TLS session closed by the broker was never freed

---
 MQTTSNGateway/src/linux/Network.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index 4987827..714ee1e 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -557,6 +557,7 @@ loop:
 			break;
 		case SSL_ERROR_ZERO_RETURN:
 			SSL_shutdown(_ssl);
+			SSL_free(_ssl);
 			_ssl = 0;
 			_numOfInstance--;
 			//TCPStack::close();
-- 
2.43.0


From f814caf8efdbd387fb9eea3ccc0affdcb48493fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:51 +0000
Subject: [PATCH 72/76] fix: a second TLS session was opened on the connection,
 or it was closed, while another task was using it

---
 MQTTSNGateway/src/linux/Network.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/MQTTSNGateway/src/linux/Network.cpp b/MQTTSNGateway/src/linux/Network.cpp
index 714ee1e..fdaac68 100644
--- a/MQTTSNGateway/src/linux/Network.cpp
+++ b/MQTTSNGateway/src/linux/Network.cpp
@@ -527,10 +527,6 @@ int Network::recv(uint8_t* buf, uint16_t len)
 		return TCPStack::recv(buf, len);
 	}
 
-	if (_busy)
-	{
-		return 0;
-	}
 	_mutex.lock();
 
 	if ( !_ssl )
@@ -652,7 +648,7 @@ bool Network::isValid()
 	{
 		if (_secureFlg)
 		{
-			if (_sslValid && !_busy)
+			if (_sslValid)
 			{
 				return true;
 			}
-- 
2.43.0


From e4e98014ba3c766a5a46460a5af8b49807007559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:51 +0000
Subject: [PATCH 73/76] fix: MulticastTTL was not set on the socket that sends
 the multicasts

---
 MQTTSNGateway/src/linux/udp/SensorNetwork.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp b/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
index e855619..9baba91 100644
--- a/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
+++ b/MQTTSNGateway/src/linux/udp/SensorNetwork.cpp
@@ -338,7 +338,8 @@ int UDPPort::open(const char *multicastIP, uint16_t multiPortNo, uint16_t uniPor
         return -1;
     }
 
-    if (setsockopt(sock, IPPROTO_IP, IP_MULTICAST_TTL, &ttl, sizeof(ttl)) < 0)
+    /* multicasts are sent by the unicast socket */
+    if (setsockopt(_pollFds[0].fd, IPPROTO_IP, IP_MULTICAST_TTL, &ttl, sizeof(ttl)) < 0)
     {
         D_NWSTACK("error Multicast IP_MULTICAST_TTL in UDPPort::open\n");
         close();
-- 
2.43.0


From 51de53fa345ce37d65a2cdce4067942e04bcd58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:51 +0000
Subject: [PATCH 74/76] fix: a GatewayID above 255 was accepted modulo 256

---
 MQTTSNGateway/src/MQTTSNGateway.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGateway.cpp b/MQTTSNGateway/src/MQTTSNGateway.cpp
index d672268..d4f9008 100644
--- a/MQTTSNGateway/src/MQTTSNGateway.cpp
+++ b/MQTTSNGateway/src/MQTTSNGateway.cpp
@@ -192,15 +192,17 @@ void Gateway::initialize(int argc, char** argv)
         _params.gwPrivatekey = strdup(param);
     }
 
+    int gatewayId = 0;
     if (getParam("GatewayID", param) == 0)
     {
-        _params.gatewayId = atoi(param);
+        gatewayId = atoi(param);
     }
 
-    if (_params.gatewayId == 0 || _params.gatewayId > 255)
+    if (gatewayId <= 0 || gatewayId > 255)
     {
         throw Exception("Gateway::initialize: invalid Gateway Id", 0);
     }
+    _params.gatewayId = gatewayId;
 
     if (getParam("GatewayName", param) == 0)
     {
-- 
2.43.0


From 70bc07160d7b69dc137bba0d0075e84407a4e5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:51 +0000
Subject: [PATCH 75/76] fix: the maximum size of the packet event queue was cut
 to 16 bits

---
 MQTTSNGateway/src/MQTTSNGateway.cpp | 4 ++--
 MQTTSNGateway/src/MQTTSNGateway.h   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGateway.cpp b/MQTTSNGateway/src/MQTTSNGateway.cpp
index d4f9008..ca77f9b 100644
--- a/MQTTSNGateway/src/MQTTSNGateway.cpp
+++ b/MQTTSNGateway/src/MQTTSNGateway.cpp
@@ -449,9 +449,9 @@ EventQue::~EventQue()
     _mutex.unlock();
 }
 
-void EventQue::setMaxSize(uint16_t maxSize)
+void EventQue::setMaxSize(int maxSize)
 {
-    _que.setMaxSize((int) maxSize);
+    _que.setMaxSize(maxSize);
 }
 
 Event* EventQue::wait(void)
diff --git a/MQTTSNGateway/src/MQTTSNGateway.h b/MQTTSNGateway/src/MQTTSNGateway.h
index d4836ae..eefed91 100644
--- a/MQTTSNGateway/src/MQTTSNGateway.h
+++ b/MQTTSNGateway/src/MQTTSNGateway.h
@@ -127,7 +127,7 @@ public:
     ~EventQue();
     Event* wait(void);
     Event* timedwait(uint16_t millsec);
-    void setMaxSize(uint16_t maxSize);
+    void setMaxSize(int maxSize);
     void post(Event*);
     int size();
 
-- 
2.43.0


From 3166a5bc5b80d4ea45fdd097b095d5c927ccaa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:54:51 +0000
Subject: [PATCH 76/76] fix: a line of gateway.conf without = was read past its
 end, and the last line lost its last character

---
 MQTTSNGateway/src/MQTTSNGWProcess.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/MQTTSNGateway/src/MQTTSNGWProcess.cpp b/MQTTSNGateway/src/MQTTSNGWProcess.cpp
index 9473a36..cafc9f1 100644
--- a/MQTTSNGateway/src/MQTTSNGWProcess.cpp
+++ b/MQTTSNGateway/src/MQTTSNGWProcess.cpp
@@ -186,7 +186,7 @@ int Process::getParam(const char* parameter, char* value)
         }
 
         len = strlen(str);
-        for (pos = 0; i < len; pos++)
+        for (pos = 0; pos < len; pos++)
         {
             if (str[pos] == '=')
             {
@@ -194,14 +194,11 @@ int Process::getParam(const char* parameter, char* value)
             }
         }
 
-        if (pos == paramlen)
+        if (pos == paramlen && pos < len)
         {
             if (strncmp(str, parameter, paramlen) == 0)
             {
                 strcpy(param, str + pos + 1);
-                param[len - pos - 2] = '\0';
-
-
                 for (i = strlen(param) - 1; i >= 0 && isspace(param[i]); i--)
                     ;
                 param[i + 1] = '\0';
-- 
2.43.0

