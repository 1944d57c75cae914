G="MQTTSNGateway/src/"
GN="Contracts on the real gateway classes: pre- and postconditions in gw/%s, the compiled code (clang LLVM IR of the current sources, printed as C) discharged by CBMC for every input within the stated sizes; collaborators by the contracts at the top of the file. %s"
TECH={
"C07":"CBMC contract proofs over the clang IR of MQTTGWPacket (building)",
"C08":"CBMC contract proofs over the clang IR of MQTTGWPacket (receiving, parsing)",
}
NOTES["C07"]=GN%("h_mqtt.cc","Strings up to 65535 bytes, payloads up to 200000; nothing bounded.")
NOTES["C08"]=GN%("h_mqtt.cc","Parsing is proved; recv over a stream is bounded (payload in at most 3 pieces, 65000 bytes) and labelled so in the evidence.")
MQ=[G+"MQTTGWPacket.cpp",G+"MQTTGWPacket.h"]
p("C07","MQTT packets sent to the broker are well formed",
 "Every MQTT packet the gateway builds (CONNECT, PUBLISH, SUBSCRIBE, UNSUBSCRIBE, PUBACK, PUBREC, PUBREL, PUBCOMP, PINGREQ, DISCONNECT) has the MQTT 3.1.1 encoding of the values given: first byte with type and flags, remaining length equal to what follows and encoded in the 1 to 4 byte variable length form, then fields and strings in order with their two-byte lengths. Building, copying or sending never reads or writes outside the packet's own memory, whatever the packet size, and replaces what the packet object held before.",
 ["inputs"],"all flags, ids, string lengths up to 65535, payload lengths across all steps of the variable length encoding",
 "tests send a few short packets; sizes above 127, 1024 or 16383 bytes and most flag combinations are never sent",MQ,
 [("getPacketData / getPacketLength / send","MQTTGWPacket.cpp"),("set* functions","MQTTGWPacket.cpp")],[("_header","first byte of the packet","MQTTGWPacket.h"),("_remainingLength, _data","what follows the length field","MQTTGWPacket.h")],["bytes given to Network::send"])
p("C08","MQTT packets from the broker are received and parsed exactly, whatever the bytes",
 "From any byte stream the gateway takes exactly the packet at its head: first byte, remaining length and that many payload bytes, also when TCP delivers it in pieces; when the stream ends, fails or has a malformed length it reports an error. Parsing a received packet as CONNACK, PUBLISH, SUBACK, PUBACK, PUBREC, PUBREL, PUBCOMP, UNSUBACK, or reading or replacing its message id, never touches memory outside the received bytes, succeeds only if the type is right and all fields fit, and gives exactly the fields the bytes carry; replacing the message id changes only the message id.",
 ["inputs","fault_sequences"],"all byte streams, all ways a stream is cut in pieces, all malformed and truncated packets",
 "tests talk to a well-behaved broker on the loopback interface; truncated, split or malformed packets do not occur",MQ,
 [("recv","MQTTGWPacket.cpp"),("getPUBLISH, getAck, getCONNACK, getSUBACK, getTopic, getMsgId, setMsgId","MQTTGWPacket.cpp")],[("_remainingLength, _data","received bytes","MQTTGWPacket.h")],["return values and out-parameters of MQTTGWPacket::get*"])
TECH.update({"C09":"CBMC contract proofs over the clang IR of MQTTSNPacket","C10":"CBMC contract proofs over the clang IR of the encapsulation, bounded contracts of the forwarder lists",
"C11":"contracts of Topics checked by CBMC over its clang IR (tables bounded)","C12":"contract of Topic::isMatch checked by CBMC over its clang IR (length bounded)","C13":"contracts of TopicIdMap checked by CBMC over its clang IR (map bounded)"})
NOTES["C09"]=GN%("h_snpacket.cc","Bounded: only the log text (3 bytes instead of 500).")
NOTES["C10"]=GN%('h_encap.cc, h_fwd.cc and u_fwd.cc','Encapsulation is proved for every node id and packet, the lists of forwarders and of their clients for any length. Each list loop is cut by an invariant over a window of neighbouring nodes (gw/window.h), so the list has any length; a bounded twin with full traversal runs beside it. Bounded: log texts.')
NOTES["C11"]=GN%('h_topics.cc and u_topics.cc',"Proved for tables of any size up to the product's limit. Each list loop is cut by an invariant over a window of neighbouring nodes (gw/window.h), so the list has any length; a bounded twin with full traversal runs beside it.")
NOTES["C12"]=GN%('h_match.cc, u_match.cc and u_topics.cc',"Topic::isMatch is proved for filters and names of any length: a topic is a sequence of levels, the loop's invariant is that the answer is the one for the levels not yet compared; which topic of the table is found is proved for tables of any size. Bounded twins: all filters and names of up to 4 (thorough 5) characters.")
NOTES["C13"]=GN%('h_idmap.cc and u_idmap.cc','Proved for any number of requests in flight and any topic name. Each list loop is cut by an invariant over a window of neighbouring nodes (gw/window.h), so the list has any length; a bounded twin with full traversal runs beside it.')
p("C09","MQTT-SN packets the gateway sends and reads are exact",
 "Every MQTT-SN packet the gateway builds (CONNACK, REGISTER, REGACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, PINGRESP, DISCONNECT, ADVERTISE, GWINFO, will requests and responses) has the MQTT-SN encoding of the values given; one that does not fit MQTTSNGW_MAX_PACKET_SIZE is not sent. Type, QoS -1 flag, DUP flag, message id and accepted state of any received bytes are those of the specified positions, and nothing outside the received bytes is read or written, whatever they are; replacing the message id changes only those two bytes. The get functions give what the deserializer of the message gives.",
 ["inputs"],"every packet content and length up to the maximum packet size, every value put in a packet",
 "tests exchange a few well-formed packets; truncated packets, the three byte length form and packets near the maximum size do not occur",[G+"MQTTSNGWPacket.cpp",G+"MQTTSNGWPacket.h"],
 [("set* and get* functions, getType, getMsgId, setMsgId","MQTTSNGWPacket.cpp"),("recv, unicast, broadcast","MQTTSNGWPacket.cpp")],[("_buf, _bufLen","the packet","MQTTSNGWPacket.h")],["bytes given to SensorNetwork::unicast/broadcast, return values of MQTTSNPacket::get*"])
p("C10","Forwarded packets: encapsulation is exact and attributed to the right client",
 "A packet for a client behind a forwarder is sent as length octet, type 0xFE, control, the client's wireless node id and the packet's bytes, for every node id and packet size, and never overruns a buffer. From any received encapsulation the wireless node id and the inner packet are exactly what the header delimits, and nothing outside the received bytes is read; a header that does not fit gives an empty packet. A forwarder's client list gives for a node id the client it was added with, for a client its node id, and adding or erasing one client leaves the others as they were. A forwarder is the one whose address matches.",
 ["inputs","histories"],"every node id, control and packet; every content of the received bytes; every list of clients and client to add or erase",
 "there is no test of forwarders",[G+"MQTTSNGWEncapsulatedPacket.cpp",G+"MQTTSNGWForwarder.cpp",G+"MQTTSNGWClientRecvTask.cpp"],
 [("serialize, desirialize, unicast, WirelessNodeId","MQTTSNGWEncapsulatedPacket.cpp"),("Forwarder::addClient/getClient/getWirelessNodeId/eraseClient, ForwarderList","MQTTSNGWForwarder.cpp"),("ClientRecvTask::log","MQTTSNGWClientRecvTask.cpp")],[("_nodeId, _len","wireless node id","MQTTSNGWEncapsulatedPacket.h"),("_headClient","clients behind a forwarder","MQTTSNGWForwarder.h")],["bytes given to SensorNetwork::unicast, getClient, getForwarder"])
p("C11","The topic table of a client maps names and ids one to one",
 "For every topic table a client can have: looking up a name or an id gives the topic with that name, or with that id and type, and no other. Registering a name that is known gives the same id again; a new name gets an id that no other registered topic of the client has and that is neither 0 nor 0xffff; registering keeps every other topic as it was; when the table is full nothing is added. Predefined topics keep the id they were given. Removing all registered topics leaves exactly the predefined ones.",
 ["inputs","histories"],"every table content (names, ids, types), every name and id asked for or added, including the wrap-around of the id counter",
 "the unit test registers ten topics in a fresh table; the id counter never wraps, the table is never full, predefined and registered topics are never mixed at random",[G+"MQTTSNGWTopic.cpp",G+"MQTTSNGWTopic.h"],
 [("Topics::add, getTopicByName, getTopicById, eraseNormal, getNextTopicId","MQTTSNGWTopic.cpp")],[("_first, _cnt, _nextTopicId","topic list and id counter","MQTTSNGWTopic.h")],["Topics::getTopicByName/getTopicById/add"])
p("C12","Topic filters match as MQTT defines",
 "For every topic filter and topic name, the match of a registered filter is the MQTT 3.1.1 rule: levels separated by / are compared exactly and completely, + stands for exactly one level (also an empty one), a final # for any number of levels including the parent level.",
 ["inputs"],"all filters and names, including empty levels, trailing separators and wildcards in each position",
 "the unit test compares a few dozen pairs",[G+"MQTTSNGWTopic.cpp"],[("Topic::isMatch","MQTTSNGWTopic.cpp")],[("_topicName","the filter","MQTTSNGWTopic.h")],["Topic::isMatch"])
p("C13","An acknowledgement is matched with the topic its request was about",
 "Of the requests in flight the topic id map gives for a message id exactly the topic id and type stored for it last, or nothing when there is none; a subscription to a wildcard filter gives topic id 0. Storing or erasing one message id leaves all others as they were, the list stays well formed and its count right, and at least the configured number of requests in flight can be stored.",
 ["inputs","histories"],"every map content, message id, topic id and type",
 "the unit test adds and erases ids in one fixed order",[G+"MQTTSNGWTopic.cpp"],[("TopicIdMap::add, getElement, erase, clear","MQTTSNGWTopic.cpp")],[("_first, _end, _cnt","list of requests in flight","MQTTSNGWTopic.h")],["TopicIdMap::getElement"])
TECH.update({"C14":"CBMC contract proofs over the clang IR of MQTTSNPublishHandler","C15":"CBMC contract proofs over the clang IR of MQTTGWPublishHandler"})
NOTES["C14"]=GN%("h_pubsn.cc with hand.h","Proved: the handlers have no loops; packets, tables and queues are replaced by their contracts (C07, C08, C09, C11, C13).")
NOTES["C15"]=GN%("h_pubgw.cc with hand.h","Proved except the distribution of an aggregated message: 10 constellations of at most 3 filters and 4 aggregated clients.")
p("C14","Every message of a client reaches the broker exactly once, with its topic",
 "For each PUBLISH of a client the gateway sends the broker exactly one PUBLISH with the same payload, length, QoS, DUP, RETAIN and message id, with the topic name that the topic id (registered, predefined or short) has for that client; an unknown topic id, or QoS 1/2 without message id, is answered as MQTT-SN requires and nothing is sent. The topic id of a QoS 1/2 message is remembered until its acknowledgement. PUBACK, PUBREC, PUBREL and PUBCOMP go on with the same message id, once. REGISTER is answered by one REGACK with the id the topic has. Nothing else is sent, and no message is dropped or repeated.",
 ["inputs","configurations"],"every content of the packet (topic type, id, QoS, flags, message id, length), every state of the client and its tables (by contract), aggregation and QoS -1 proxy on or off",
 "there is no test of the handlers",[G+"MQTTSNGWPublishHandler.cpp"],
 [("handlePublish, handlePuback, handleAck, handleRegister, handleRegAck, handleAggregatePublish, handleAggregateAck","MQTTSNGWPublishHandler.cpp")],[("_waitedPubTopicIdMap","requests in flight","MQTTSNGWClient.h")],["events posted to the broker and client send queues"])
p("C15","Every message of the broker reaches the client exactly once, with its topic",
 "For each PUBLISH of the broker to an active client the gateway sends the client exactly one PUBLISH with the same payload, length, QoS, DUP, RETAIN and message id and the id of its topic (two character names as short topics); for a topic the client does not know yet it sends one REGISTER with the id and name and keeps the PUBLISH until the REGACK with that message id. For a sleeping client the message is kept as it came and acknowledged to the broker. A message without subscription is acknowledged and dropped. PUBACK is given the topic id of the client's message; PUBREC, PUBREL and PUBCOMP keep the message id. Aggregated messages and acknowledgements go to the clients they belong to, each once. Packets that do not parse have no effect.",
 ["inputs","configurations"],"every content of the packet, every state of the client and its tables (by contract)",
 "there is no test of the handlers",[G+"MQTTGWPublishHandler.cpp"],
 [("handlePublish, replyACK, handlePuback, handleAck, handleAggregatePublish, handleAggregatePuback, handleAggregateAck, handleAggregatePubrel","MQTTGWPublishHandler.cpp")],[("_waitREGACKList","messages waiting for a REGACK","MQTTSNGWClient.h"),("_clientSleepPacketQue","messages for a sleeping client","MQTTSNGWClient.h")],["events posted to the broker, client send and packet event queues"])
TECH["C16"]="CBMC contract proofs over the clang IR of MQTTSNSubscribeHandler and MQTTGWSubscribeHandler"
NOTES["C16"]=GN%("h_sub.cc with hand.h","Proved: the handlers have no loops; packets, tables and queues are replaced by their contracts.")
p("C16","Subscriptions are made for the topic the client asked for, and answered once",
 "For each SUBSCRIBE (QoS 0 to 2) or UNSUBSCRIBE of a client the broker is sent exactly one, with the client's message id and QoS and the filter that the client's topic (name, predefined id of the client or of the gateway, two character name) stands for; one with an unknown or unstorable topic is answered at once (SUBACK rejected, UNSUBACK) and not forwarded; one without a message id has no effect. The topic id of the subscription is remembered under its message id and given in the SUBACK, with the QoS the broker granted, or rejected when the broker refuses. Each SUBACK and UNSUBACK of the broker is passed on once, with the same message id, and one that was not asked for is not. With aggregation the message id is the aggregater's and the filter is entered or removed for this client.",
 ["inputs","configurations"],"every content of the packets, every state of the client and its tables (by contract), aggregated or not",
 "there is no test of the handlers",[G+"MQTTSNGWSubscribeHandler.cpp",G+"MQTTGWSubscribeHandler.cpp"],
 [("handleSubscribe, handleUnsubscribe, handleAggregateSubscribe, handleAggregateUnsubscribe","MQTTSNGWSubscribeHandler.cpp"),("handleSuback, handleUnsuback, handleAggregateSuback, handleAggregateUnsuback","MQTTGWSubscribeHandler.cpp")],[("_waitedSubTopicIdMap","subscriptions in flight","MQTTSNGWClient.h")],["events posted to the broker and client send queues"])
TECH["C17"]="CBMC contract proofs over the clang IR of the three connection handlers (stored messages bounded)"
NOTES["C17"]=GN%("h_conn.cc with hand.h","Proved, except that at most 3 stored messages and 3 topics are present where a handler loops over them.")
p("C17","Connection, will, sleep and disconnection are relayed as MQTT-SN defines",
 "A CONNECT of a client leads to exactly one CONNECT to the broker with the client's id, keep-alive, clean session flag and the configured user and password; with a will only after WILLTOPICREQ/WILLTOPIC/WILLMSGREQ/WILLMSG, with that will topic, message, QoS and retain flag. A clean session erases registered topics and requests in flight, another keeps them. A sleeping client that connects is acknowledged at once. CONNACK passes acceptance and refusal on and the client is active exactly when accepted. PINGREQ first delivers every stored message, each once and in order, and is then answered. DISCONNECT is confirmed to the client and passed to the broker unless it asks to sleep; when the broker connection is lost the client is told. SEARCHGW and the advertise timer give GWINFO and ADVERTISE with the gateway's id. Unsupported will updates are refused. Aggregated clients are answered by the gateway itself in the same way.",
 ["inputs","configurations"],"every content of the packets, every client state, credentials configured or not, will or not",
 "the tests never run a gateway",[G+"MQTTSNGWConnectionHandler.cpp",G+"MQTTGWConnectionHandler.cpp",G+"MQTTSNAggregateConnectionHandler.cpp"],
 [("handleConnect, handleWilltopic, handleWillmsg, handleDisconnect, handlePingreq, handleSearchgw, sendADVERTISE, sendStoredPublish","MQTTSNGWConnectionHandler.cpp"),("handleConnack, handlePingresp, handleDisconnect","MQTTGWConnectionHandler.cpp"),("handleConnect, handleWillmsg, handleDisconnect, handlePingreq","MQTTSNAggregateConnectionHandler.cpp")],[("_connectData, _status, _clientSleepPacketQue","session of a client","MQTTSNGWClient.h")],["events posted to the broker, client send and packet event queues"])

TECH["C18"]='CBMC contract proofs over the clang IR of Client and WaitREGACKPacketList, loops over lists cut by invariants (any length)'
NOTES["C18"]=GN%('h_client.cc and u_regack.cc','Client is proved; so is the list of messages waiting for REGACK, of any length. Each list loop is cut by an invariant over a window of neighbouring nodes (gw/window.h), so the list has any length; a bounded twin with full traversal runs beside it.')
p("C18","The gateway's state of a client follows its packets, and its message ids do not repeat",
 "The state of a client after each of its packets is the one of the MQTT-SN state diagram (DISCONNECT without duration: disconnected, with duration: asleep; PINGREQ of a sleeping client: awake until PINGRESP; CONNECT: active), the keep-alive timer is one and a half times the duration of its CONNECT and restarts with each PINGREQ, PUBLISH and SUBSCRIBE; its client id, will topic and will message are the bytes received. Ids given to messages for the broker and for the client are never 0 and go through all values before one repeats. A message waiting for a REGACK is found by the REGISTER's message id and by no other, and is dropped with it.",
 ["inputs","histories"],"every state, packet type and duration; every id counter, including wrap-around; every list content",
 "there is no test of Client",[G+"MQTTSNGWClient.cpp",G+"MQTTSNGWClient.h"],
 [("Client::updateStatus, connectSended, connackSended, is*, erasable, getNextPacketId, getNextSnMsgId, setClientId, setWillTopic, setWillMsg; WaitREGACKPacketList::setPacket, getPacket, erase","MQTTSNGWClient.cpp")],[("_status, _packetId, _snMsgId, _waitREGACKList","client state","MQTTSNGWClient.h")],["Client::isActive() etc., timers started, ids returned"])
TECH["C19"]='CBMC contract proofs over the clang IR of MessageIdTable and Aggregater, loops over lists cut by invariants (any length)'
NOTES["C19"]=GN%('h_msgid.cc and u_msgid.cc',"Proved for tables of any size up to the product's 500 entries. Each list loop is cut by an invariant over a window of neighbouring nodes (gw/window.h), so the list has any length; a bounded twin with full traversal runs beside it.")
p("C19","The aggregater gives every request its own message id and returns answers to its client",
 "Each request of an aggregated client that expects an answer is given a message id no other request in flight has; a client's request that is in flight already is not given a second one. An answer of the broker is returned to the client that made the request, with that client's message id, and to no one else; the id is free again after the last answer. Adding and removing one entry changes no other.",
 ["inputs","histories"],"every table content, ids and clients",
 "the unit tests add and look up ids in one order",[G+"MQTTSNGWMessageIdTable.cpp",G+"MQTTSNGWAggregater.cpp"],
 [("MessageIdTable::add, getMsgId, getClientMsgId, erase; Aggregater::addMessageIdTable, convertClient, getMsgId","MQTTSNGWMessageIdTable.cpp")],[("_head, _tail, _cnt","requests in flight","MQTTSNGWMessageIdTable.h")],["message ids sent to the broker, clients answered"])

TECH["C20"]='CBMC contract proofs over the clang IR of AggregateTopicTable, loops over lists cut by invariants (any length)'
NOTES["C20"]=GN%('h_aggr.cc, u_aggr.cc and u_aggrel.cc','Proved for any number of filters and of clients at each. Each list loop is cut by an invariant over a window of neighbouring nodes (gw/window.h), so the list has any length; a bounded twin with full traversal runs beside it.')
p("C20","The aggregater knows which clients subscribed to which filter",
 "A client is in the aggregater's table at a filter exactly from its subscription to that filter until its unsubscription, once, however often it subscribes; other filters and clients are not affected by either, even when one filter matches the other. The filters that match a topic name are all found, one after the other; a filter no client is left at is gone; every lock taken is released.",
 ["inputs","histories"],"every table content, names and clients, every outcome of matching",
 "the unit test adds and removes clients in one order",[G+"MQTTSNGWAggregateTopicTable.cpp"],
 [("AggregateTopicTable::add, erase, getAggregateTopicElement, getClientElement; AggregateTopicElement::add, eraseClient, find","MQTTSNGWAggregateTopicTable.cpp")],[("_head, _tail","filters and clients","MQTTSNGWAggregateTopicTable.h")],["clients that get an aggregated message"])

TECH["C21"]="CBMC contract proofs over the clang IR of the tasks' loops (loop invariant: after any number of rounds)"
NOTES["C21"]=GN%("h_task.cc and h_brecv.cc with hand.h","Proved for every round of the endless loops: at the loop head all variables of the loop are arbitrary; BrokerRecvTask is bounded to 2 clients.")
p("C21","Every packet reaches the handler of its type or the socket it is for, exactly once",
 "Each event of the packet task leads to exactly the handler for its packet's type and kind of client (aggregated or not), with that client and packet, and afterwards the client's state is updated once; the event is destroyed once. Each event for a client is sent once: broadcast, to the client, or to the address. Each packet for the broker is sent once, on the connection of the client or of the adapter that stands for it; a CONNECT opens a new connection, after the old one is closed, with the configured host, port and keys, TLS exactly if the client is secure; when it cannot be opened nothing is sent; after a failed send the packet task is told once that the client's connection is lost. Each packet of a known type that a broker connection delivers is passed on once, for the client of that connection; a connection that is closed by the broker or out of step is closed and its client disconnected, no other.",
 ["inputs","histories","fault_sequences"],"every packet type, client state, failing connect, send and receive; any number of rounds",
 "the tests never run a task",[G+"MQTTSNGWPacketHandleTask.cpp",G+"MQTTSNGWClientSendTask.cpp",G+"MQTTSNGWBrokerSendTask.cpp",G+"MQTTSNGWBrokerRecvTask.cpp"],
 [("PacketHandleTask::run, aggregatePacketHandler, transparentPacketHandler","MQTTSNGWPacketHandleTask.cpp"),("ClientSendTask::run","MQTTSNGWClientSendTask.cpp"),("BrokerSendTask::run","MQTTSNGWBrokerSendTask.cpp"),("BrokerRecvTask::run","MQTTSNGWBrokerRecvTask.cpp")],[("_packetEventQue, _clientSendQue, _brokerSendQue","events between the tasks","MQTTSNGateway.h")],["handlers called, packets given to the sockets"])
TECH["C22"]="CBMC contract proof over the clang IR of ClientRecvTask's loop"
NOTES["C22"]=GN%("h_recv.cc with hand.h","Proved for every received packet: at the head of the endless loop its variables are arbitrary.")
p("C22","A packet is attributed to the client that sent it, and strangers are kept out",
 "A packet from the sensor network belongs to the client at the sender's address, to the client of the wireless node id if a declared forwarder encapsulated it, or to the QoS -1 proxy if the address is one of its clients (then only a PUBLISH with QoS -1 is accepted). It is passed to the packet task once, or destroyed. A disconnected client that sends anything but CONNECT, or the will it was asked for, is told DISCONNECT and nothing is passed on. From an unknown sender only a well formed CONNECT is accepted: it belongs to the client of that client id, or to a new client unless clients must be registered (ClientAuthentication); a registered client keeps its registered address when clients are authenticated. Packets of an undeclared forwarder, ADVERTISE, GWINFO and truncated packets are dropped; SEARCHGW is passed on.",
 ["inputs","configurations"],"every packet type, sender, client state and configuration",
 "the tests never run a task",[G+"MQTTSNGWClientRecvTask.cpp"],
 [("ClientRecvTask::run","MQTTSNGWClientRecvTask.cpp")],[("_clientList, _forwarders","who is known","MQTTSNGateway.h")],["events posted to the packet and client send queues"])
TECH["C23"]='CBMC contract proofs over the clang IR of ClientList and ClientsPool, loops over lists cut by invariants (any length)'
NOTES["C23"]=GN%('h_clist.cc and u_clist.cc','Proved for any number of clients and identifiers of any length. Each list loop is cut by an invariant over a window of neighbouring nodes (gw/window.h), so the list has any length; a bounded twin with full traversal runs beside it.')
p("C23","A client is found by its whole id or its address, and created once",
 "The client list finds the first client that has the given address, and the first client whose id is the given id, of the same length and bytes (the empty id is nobody's); otherwise none. Creating a client for an address that is known gives that client; otherwise a client of the pool is appended, disconnected, with the given address, id, stability, security and kind; with the pool exhausted nothing changes and none is given. A predefined topic is entered for the client with that id, for all clients if the id is the common one, and for a client that is not registered only if registration is not required. No other client is changed, locks are released.",
 ["inputs","histories"],"every list of clients, ids and addresses",
 "there is no test of ClientList",[G+"MQTTSNGWClientList.cpp"],
 [("ClientList::getClient, createClient, createPredefinedTopic; ClientsPool::getClient, setClient","MQTTSNGWClientList.cpp")],[("_firstClient, _endClient, _clientCnt","list of clients","MQTTSNGWClientList.h")],["clients returned, the list"])
TECH["C24"]="CBMC contract proofs over the clang IR of AdapterManager, Adapter, Proxy, QoSm1Proxy and Aggregater"
NOTES["C24"]=GN%("h_adapter.cc with hand.h and h_asetup.cc","Proved except for the number of packets held back (2) and the length of the gateway's name when the adapters are set up (3).")
p("C24","The QoS -1 proxy and the aggregater stand for their clients, on the right connection",
 "A packet of a QoS -1 client goes to the broker on the proxy's connection and one of an aggregated client on the aggregater's, on the secure one exactly if the client is secure, also when the client is behind a forwarder; every other client has its own. A packet for a client is sent to its address, or encapsulated with its node id to its forwarder; an answer for an adapter is never sent to the sensor network but reaches the proxy of the connection it came on: an accepted CONNACK releases the packets held back, in order, PINGRESP ends the wait. An adapter connects when disconnected or not answered in time, pings when its keep-alive time is over or a ping is unanswered, and after the permitted number of unanswered pings is disconnected, to connect again; all connections of active adapters are looked after, no others. The adapters that are switched on, and no others, are active; each owns one client for plain and one for secure connections, named after the gateway and the adapter, never bound to an address; only a client allowed to publish with QoS -1 is known to the proxy by its address alone.",
 ["inputs","histories","configurations"],"every kind and state of client, secure or not, every timer and retry state",
 "there is no test of the adapters",[G+"MQTTSNGWAdapterManager.cpp",G+"MQTTSNGWAdapter.cpp"],
 [("AdapterManager::getClient, isAggregatedClient, unicastToClient, checkConnection","MQTTSNGWAdapterManager.cpp"),("Adapter::send, savePacket, getAdapterClient, checkConnection; Proxy::checkConnection, recv, sendSuspendedPacket","MQTTSNGWAdapter.cpp"),("Adapter::setup, getClient, isSecure; QoSm1Proxy::initialize; Aggregater::initialize","MQTTSNGWQoSm1Proxy.cpp")],[("_proxy, _proxySecure, _client, _clientSecure","connections of an adapter","MQTTSNGWAdapter.h")],["events posted, packets sent, client returned"])
TECH["C25"]="CBMC contract proofs over the clang IR of Que, PacketQue, EventQue and Event, for queues of any length"
NOTES["C25"]=GN%("h_que.cc","Proved for queues of any length: a queue is its first, second and last element, what lies between is never reached (and would be reported). Clearing a queue is bounded to 3 elements.")
p("C25","The queues between the tasks keep every event, in order, once",
 "Posting appends the event at the end of the queue, unless the queue has a maximum size and is full: then nothing changes and an event is destroyed. Waiting and taking give the oldest event and remove exactly it; a timed wait on a queue that stays empty gives a timeout event. One waiting task is woken per posted event; every operation holds the lock while it changes the queue and releases it. An event carries exactly what it was made for and destroys the packets and address it owns once, never the client.",
 ["inputs","histories"],"queues of every length and maximum size; every kind of event",
 "the unit test posts and takes a few items",[G+"MQTTSNGWProcess.h",G+"MQTTSNGateway.cpp",G+"MQTTSNGWClient.h"],
 [("Que::post, pop, front, size","MQTTSNGWProcess.h"),("EventQue::post, wait, timedwait, size; Event","MQTTSNGateway.cpp"),("PacketQue::post, getPacket, pop, clear","MQTTSNGWClient.h")],[("_head, _tail, _cnt, _maxSize","queue","MQTTSNGWProcess.h")],["events returned, semaphore posts"])
TECH["C26"]="CBMC contract proofs over the clang IR of TCPStack and Network (TLS transfers by loop invariant, any number of rounds), with C++ exceptions; host names of any length by random inputs only"
NOTES["C26"]=GN%("h_net.cc and gw/u_net.cc","Sockets, select and OpenSSL are contracts (the OpenSSL ones: what SSL_connect, SSL_get_verify_result, SSL_write, SSL_read, SSL_pending, X509_NAME_get_text_by_NID may answer, and that every session and context is released once). TLS send and receive are proved for any number of rounds; connect with TLS is bounded to host names of 3 characters, and run on names up to 60 on random inputs. Sockets are below FD_SETSIZE.")
p("C26","The connection to the broker is to the configured, verified broker and carries every byte once",
 "Without TLS, connect opens one TCP connection to the given host and port, and send and recv work on that socket. With TLS, connect succeeds only after a handshake on that socket, with the certificate verified against the configured authorities and its common name equal to the host's name, or to '*.' and what follows the first dot of the host's name; the configured certificate and key are presented. A connect that fails leaves the connection invalid and without a TLS session. With TLS nothing is sent in the clear: every byte given to send goes to the TLS session, once and in order, and recv stores at most the bytes asked for, at the start of the buffer, and answers how many. The connection is valid exactly while it is connected (and, with TLS, verified), whatever another task is transferring; close releases socket and session once.",
 ["inputs","histories"],"connections in every state, every result of the socket and TLS calls, certificates with any common name, transfers of any length",
 "no test opens a TLS connection; the gateway tests run without a broker",[G+"linux/Network.cpp",G+"linux/Network.h"],
 [("Network::connect (both), send, recv, close, isValid, isSecure, initialize","linux/Network.cpp"),("TCPStack::connect, send, recv, close, isValid, getSock","linux/Network.cpp")],[("_ssl, _sslValid, _sockfd, _disconReq, _busy","connection","linux/Network.h")],["calls on the socket and the TLS session; the answers of connect, send, recv, isValid"])
TECH["C27"]="CBMC contract proofs over the clang IR of UDPPort, SensorNetwork and SensorNetAddress, with C++ exceptions"
NOTES["C27"]=GN%("h_udp.cc","The socket calls are contracts. Parsing an address text is bounded to 5 characters; inet_addr and atoi are arbitrary. poll answers readable or not for each socket, no error condition. Ports are 0..65535.")
p("C27","Datagrams of the sensor network go to and come from exactly their address",
 "UDP: a unicast is one datagram with exactly the given bytes to the given address, a broadcast one to the configured multicast group; both leave through the unicast socket, which has the configured TTL. read receives from a socket that has a datagram, at most the given length, and the sender's address is that datagram's address and port; with no datagram it answers 0, with a failed receive -1. Opening binds the unicast socket to the gateway's port and the multicast socket to the multicast port and joins the configured group, or fails; closing closes each socket once. Addresses compare equal exactly if IP address and port are equal; copying and parsing keep both. The gateway starts on the network gateway.conf names, or not at all.",
 ["inputs","histories"],"every address, port, length, content and result of the socket calls",
 "the gateway tests do not open the sensor network",[G+"linux/udp/SensorNetwork.cpp",G+"linux/udp/SensorNetwork.h"],
 [("UDPPort::open, close, unicast, broadcast, recv, recvfrom","linux/udp/SensorNetwork.cpp"),("SensorNetwork::initialize, unicast, broadcast, read, getSenderAddress","linux/udp/SensorNetwork.cpp"),("SensorNetAddress::setAddress, isMatch, operator=","linux/udp/SensorNetwork.cpp")],[("_pollFds, _multicastAddr, _senderAddr","network","linux/udp/SensorNetwork.h")],["datagrams and their addresses"])
TECH["C28"]="CBMC contract proofs over the clang IR of Gateway::initialize (all parameters, with C++ exceptions); Process::getParam for any number of lines (loop invariant) of bounded length, and random inputs of full size"
NOTES["C28"]=GN%("h_conf.cc and gw/h_param.cc","Proved for Gateway::initialize over any set of parameters and values; the texts themselves are arbitrary, atoi is exact on them. getParam: any number of lines, each at most 5 characters; lines up to 100 characters, keys up to 20 and 40 lines on random inputs. Lines are shorter than the buffer (126 characters).")
p("C28","The gateway runs with what gateway.conf says",
 "A parameter is the text after the '=' of the first line whose text before the '=' is exactly its name, without the blanks around it; comment lines are no parameters, and a parameter no line gives is reported as missing. Gateway::initialize takes every setting from its own parameter: broker, ports, certificates, credentials, gateway id and name, protocol version, limits, keep alive, client list and topic files, and the YES flags for authentication, predefined topics, aggregation, forwarder and QoS -1; what is missing keeps its default. It starts the adapters, the client list and the sensor network with these settings, in that order, and refuses to start with a gateway id outside 1..255 or no gateway name.",
 ["inputs"],"every set of parameters and values; files of any number of lines",
 "the tests run with one configuration file or none",[G+"MQTTSNGateway.cpp",G+"MQTTSNGWProcess.cpp"],
 [("Gateway::initialize","MQTTSNGateway.cpp"),("Process::getParam","MQTTSNGWProcess.cpp")],[("_params","settings","MQTTSNGateway.h")],["settings the gateway runs with, exceptions at start"])
