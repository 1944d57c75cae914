import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=[],obs=[]):
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":obs,"hook_needed":None}})
L="MQTTSNPacket/src/"
DES=[L+x for x in ("MQTTSNDeserializePublish.c","MQTTSNConnectServer.c","MQTTSNConnectClient.c","MQTTSNSubscribeServer.c","MQTTSNSubscribeClient.c","MQTTSNUnsubscribeServer.c","MQTTSNUnsubscribeClient.c","MQTTSNSearchClient.c","MQTTSNSearchServer.c","MQTTSNPacket.c")]
SER=[L+x for x in ("MQTTSNSerializePublish.c","MQTTSNConnectServer.c","MQTTSNConnectClient.c","MQTTSNSubscribeServer.c","MQTTSNSubscribeClient.c","MQTTSNUnsubscribeServer.c","MQTTSNUnsubscribeClient.c","MQTTSNSearchClient.c","MQTTSNSearchServer.c","MQTTSNPacket.c")]
p("C01","MQTT-SN parsing stays inside the received bytes",
 "Deserializing any byte sequence of any length as any MQTT-SN message never reads or writes outside the given buffer and the caller's result variables. When a deserializer reports success, every string, address and payload it hands back lies inside the received bytes and has a non-negative length.",
 ["inputs"],"every buffer length from 0, every content including a length field that lies, every message type",
 "the unit tests only feed packets the library itself has just serialized; short, over-long and lying length fields are not reached",DES,
 [("length checks against the received length","each MQTTSNDeserialize_*"),("readMQTTSNString end-of-data check","MQTTSNPacket.c")],obs=["return value and out-parameters of MQTTSNDeserialize_*"])
p("C02","MQTT-SN parsing gives exactly the fields of the message",
 "A deserializer succeeds exactly when the buffer holds a message of its type whose length field fits the received bytes and leaves room for the mandatory fields (with valid protocol id and topic type where the message has them). On success every value handed back is the one encoded at that message's field position, high byte first, for both the 1-byte and the 3-byte length form; on failure success is not reported.",
 ["inputs"],"all buffers, all field values, both length forms",
 "tests compare a handful of field values, never the 3-byte length form, never values above 127 in byte fields and never malformed messages",DES,
 [("field readers readChar/readInt/readMQTTSNString","MQTTSNPacket.c"),("flag bit fields","MQTTSNPacket.h")],obs=["return value and out-parameters of MQTTSNDeserialize_*"])
p("C03","MQTT-SN serializers never write outside the packet they report",
 "A serializer writes only the first n bytes of the caller's buffer, where n is the total length it returns. When the message does not fit the buffer size given it returns the buffer-too-short error (-2) and leaves the buffer untouched; otherwise it returns the exact encoded length of the message.",
 ["inputs"],"every buffer size from 0, every argument value, strings and payloads up to a 65535 byte message",
 "tests use one generous buffer size; exact-fit, one-too-short and 255/256-byte boundary sizes are not reached",SER,
 [("size check before the first write","each MQTTSNSerialize_*"),("MQTTSNPacket_len / *Length functions","MQTTSNPacket.c, MQTTSNSerialize*.c")],obs=["return value and buffer content after MQTTSNSerialize_*"])
p("C04","MQTT-SN serializers produce the layout of the specification",
 "Every successful serialization puts the MQTT-SN 1.2 encoding in the buffer: length field (one byte up to 255, else 0x01 and two bytes, high byte first), message type, flags with each flag in its bit, then the fields in specified order and byte order, strings and payload copied verbatim. This holds for every argument value and every length.",
 ["inputs"],"all flag combinations, all 16-bit ids, all return codes, all string forms and lengths including the 255-byte boundary of the length field",
 "tests check a round trip on a few values, so a consistent error in both directions, a boundary length or an unused flag combination passes",SER,
 [("MQTTSNPacket_encode","MQTTSNPacket.c"),("flag bit fields and writers","MQTTSNPacket.h, MQTTSNPacket.c")],obs=["buffer content after MQTTSNSerialize_*"])
p("C05","Serialize then deserialize gives the same values back",
 "For every MQTT-SN message that has both directions, deserializing what the serializer produced succeeds and gives back every argument value: flags, QoS, ids, topic in each of its forms, strings, return codes and payload bytes. The framing check accepts exactly that message.",
 ["inputs"],"all argument values and lengths up to a 65535 byte message",
 "the unit tests round-trip a few fixed values per message",SER+DES[:1],[("serializer and deserializer of each message","MQTTSNPacket/src")],obs=["values given to MQTTSNSerialize_* and got from MQTTSNDeserialize_*"])
p("C06","Packet length field and framing",
 "The packet length and length-field functions implement the MQTT-SN length encoding: total length includes the length field, one byte is used up to a total of 255 and three bytes above, and decoding inverts encoding. Reading a packet from a buffer or a transport returns the message type exactly when the length field equals the number of bytes received and a type byte is present, otherwise the read error (-1), without touching bytes outside the buffer.",
 ["inputs"],"all lengths up to 65535, all buffers, all results of the transport's read function including errors and short reads",
 "no unit test calls the framing functions with malformed input or a failing transport",[L+"MQTTSNPacket.c"],[("MQTTSNPacket_len, _encode, _decode, _read, _read_nb","MQTTSNPacket.c")],obs=["return values and written bytes"])
import os
NOTES,LEVEL,NA={},{},[]
exec(open(os.path.dirname(os.path.abspath(__file__))+'/props_gw.py').read())
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
tech={"C01":"CBMC code contracts (dfcc): bounds and frame of every deserializer","C02":"CBMC code contracts: exact postconditions of every deserializer","C03":"CBMC code contracts: assigns clause and result of every serializer","C04":"CBMC code contracts: byte-exact layout postconditions of every serializer","C05":"CBMC lemmas over the real serializer and deserializer bodies, memcpy/strlen by contract","C06":"CBMC code contracts on the length and framing functions"}
note="Every obligation discharged for all inputs (no bound): functions are loop-free apart from memcpy/strlen, which are used through contracts. Trusts cbmc and the two libc contracts; preconditions are listed in DESIGN.md and the evidence file."
tech.update(TECH)
m={"version":1,"setup_cmd":"python3 -m compileall -q vp check.py","checks":[{"property":k,"quick_cmd":"python3 check.py %s quick"%k,"thorough_cmd":"python3 check.py %s thorough"%k,"technique":v,"level":LEVEL.get(k,"proof"),"level_note":NOTES.get(k,note)} for k,v in tech.items()],"not_applicable":NA}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
