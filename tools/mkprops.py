#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

LIB='src/lib.rs'; CL='src/client.rs'; CO='src/mqtt_codec.rs'; PK='src/pktids.rs'; PR='src/protocol/'
NOEL="No test runs the event loop: the 13 tests cover the id allocator on four short histories and five packets' parsing."

prop('C01','CONNECT comes first, and nothing else before CONNACK',
 "On every connection the first thing the client writes is exactly one well-formed MQTT 5 CONNECT (protocol MQTT version 5, clean start, no reserved bits, a non-zero keep-alive, a non-empty client id), and it never writes a second one. It writes nothing else until the broker's CONNACK has arrived, however long that takes and whatever the user asks for meanwhile; commands accepted in the meantime are held back and sent afterwards.",
 ['schedules','histories'],"every order of user commands, broker bytes, waits and TCP accept delays around the handshake",
 NOEL,[LIB,PR+'connect.rs',PR+'connack.rs'],
 [('CONNECT is sent and CONNACK awaited before the select loop is entered',LIB+' fn poll'),('packet layout',PR+'connect.rs')],
 [('select loop entry','commands are only taken after the handshake',LIB+' fn poll')],
 ['bytes the client writes to its TCP socket'])
prop('C02','A handshake that does not succeed ends the connection with an error',
 "If the TCP connection cannot be made, or the first thing the broker sends is anything but a complete well-formed CONNACK with the success code (another packet, malformed bytes, a refusal code, end of stream), the event loop finishes, promptly, with an error, and no user command is transmitted. A CONNACK that was received, accepting or refusing, is reported to the application.",
 ['inputs','fault_sequences'],"every first packet a broker may send, every refusal code, and end of stream or reset at every byte of it",
 NOEL+" A broker that refuses or closes early is never simulated.",[LIB,PR+'connack.rs',CO],
 [('connect error is returned',LIB+' EventLoop::poll'),('first packet must be a success CONNACK',LIB+' fn poll')],(),
 ['result of the event loop future','notifications','bytes written'])
prop('C03','Accepted commands are transmitted exactly once, in order',
 "Every publish, subscribe and unsubscribe the client API accepted is transmitted exactly once, in the order in which they were accepted (across all clones of the client handle), for as long as the connection lives, the peer keeps reading and the application keeps taking notifications. The client transmits no publish, subscribe, unsubscribe or disconnect that was not asked for.",
 ['schedules','histories'],"every interleaving of commands from any number of handles with inbound packets, keep-alive ticks, slow consumers and write backpressure",
 NOEL,[LIB,CL],[('FIFO command channel drained by the select loop; handlers run to completion',LIB+' fn poll'),('try_send of the command',CL)],
 [('commands_rx','accepted, not yet transmitted commands',LIB)],['API return values','bytes written'])
prop('C04','Outbound packets say exactly what the caller asked for',
 "Every packet the client writes is well-formed MQTT 5 (right type, flags and lengths) and an independent decoder reads from it exactly what the caller asked for: topic, payload bytes, QoS, retain and dup clear, and the properties in order with the payload format indicator saying whether the payload is text for a publish; topic filter and requested QoS for a subscribe; topic filter for an unsubscribe. This holds for every size up to the protocol's limits, in particular at each length-encoding boundary.",
 ['inputs'],"every representable topic, payload, QoS and property list",
 "No test encodes any packet.",[CL,PR+'mod.rs',PR+'publish.rs',PR+'properties.rs',PR+'subscribe.rs',PR+'unsubscribe.rs',PR+'puback.rs',PR+'pingreq.rs',PR+'disconnect.rs',CO],
 [('ToMqttBytes implementations',PR),('variable byte integer encoding',PR+'mod.rs impl ToMqttBytes for VBI')],(),['bytes written'])
prop('C05','Arguments the protocol cannot carry are refused, never mis-sent',
 "A publish, subscribe or unsubscribe with a topic, property string or binary property longer than 65535 bytes, or a message longer than the largest MQTT packet, is refused with an error by the call and nothing of it is ever transmitted. Arguments of exactly the largest representable size are not refused for their size, and a refusal leaves the connection and all other commands unaffected.",
 ['inputs'],"every length of every variable-length argument around the limits",
 "No test passes a long argument.",[CL,CO,PR+'mod.rs'],
 [('length checks before the command is queued',CL)],(),['API return values','bytes written'])
prop('C06','Packet identifiers in flight are unique and non-zero',
 "No two outbound packets that carry a packet identifier (subscribe, unsubscribe, publish with QoS above 0) have the same one while both are unacknowledged, where a packet counts as unacknowledged from when it is written until an acknowledgement carrying its identifier (from the broker: PUBACK, SUBACK or UNSUBACK) has arrived since. Identifiers are never zero, and QoS 0 messages carry none. This holds for every history of requests and acknowledgements, in any order, including duplicate acknowledgements and ones for identifiers that are not in use.",
 ['histories','inputs'],"every history of allocations and acknowledgements over the full 16-bit range",
 "The four allocator tests follow fixed histories of at most 14 steps with a maximum of 5 or 12, in which no id is returned twice.",[PK,LIB],
 [('sorted list of vacant ranges',PK),('ids returned on PUBACK, SUBACK, UNSUBACK',LIB+' fn poll')],
 [('ranges/start','vacant identifiers',PK)],['packet ids in bytes written'])
prop('C07','Identifiers are recycled, and running out only makes commands wait',
 "An acknowledged identifier becomes usable again, so a client can go on for ever and can always have up to 65535 requests in flight. While all 65535 are in flight further commands wait: the client neither fails, crashes, drops nor reorders them, it keeps handling inbound packets and keep-alive, and it transmits the waiting commands as acknowledgements arrive.",
 ['histories'],"every history of allocations and acknowledgements, including ones that use all 65535 identifiers, in any release order",
 "Tests exhaust an allocator of five identifiers once and never the real range, and never through the event loop.",[PK,LIB],
 [('next_id/return_id',PK),('commands are taken only while an identifier is vacant',LIB+' fn poll')],
 [('ranges/start','vacant identifiers',PK)],['packet ids in bytes written','result of the event loop future'])
prop('C08','Each QoS 1 message is acknowledged exactly once',
 "For every QoS 1 PUBLISH from the broker the client writes exactly one successful PUBACK with the same packet identifier, and it writes them in the order the messages arrived, also for redelivered messages (dup set) and repeated identifiers. It never writes a PUBACK for anything else.",
 ['schedules','histories','inputs'],"every sequence of inbound packets, identifiers 1..65535, interleaved with anything else",
 NOEL,[LIB,PR+'puback.rs',PR+'publish.rs'],[('PUBACK is written when the message is handled',LIB+' fn poll')],(),['bytes written'])
prop('C09','Every inbound packet is notified exactly once, in order, even to a slow consumer',
 "Each CONNACK, SUBACK, UNSUBACK and PUBLISH (QoS 0 or 1) the client accepts yields exactly one notification, of the corresponding kind, and notifications come in the order the packets arrived; nothing else yields a notification. A consumer that takes notifications late loses none: the event loop waits for it (it can run at least 100 notifications ahead) and carries on where it was once there is room.",
 ['schedules','histories'],"every sequence of inbound packets and every pace at which the application takes notifications",
 NOEL,[LIB,CL],[('bounded notification channel awaited by the event loop',LIB+' fn poll')],
 [('notifications_tx','notifications not yet taken',LIB)],['notification stream'])
prop('C10','Notifications report exactly what the broker sent',
 "A notification carries what the packet said: for a message its topic, payload (as text when the broker flagged it as UTF-8, else as bytes), supported properties in order, QoS, retain and dup flags and packet identifier; for CONNACK, SUBACK and UNSUBACK the packet identifier, reason code, session-present flag and properties. This holds for every well-formed packet that uses only properties the client supports.",
 ['inputs'],"every well-formed inbound packet of the supported kinds: all flags, reason codes, property lists and lengths",
 "Three PUBLISH packets without any multi-byte length or property other than the format indicator, and four PUBACK property blocks, are parsed in tests.",
 [PR+'publish.rs',PR+'connack.rs',PR+'suback.rs',PR+'unsuback.rs',PR+'properties.rs',PR+'mod.rs',LIB],
 [('FromMqttBytes implementations',PR)],(),['content of notifications'])
prop('C11','How the byte stream is cut up does not matter',
 "What the client does with the broker's bytes (the notifications, what it writes, whether and how it finishes) depends only on the byte sequence, never on how TCP cuts it into reads: any segmentation of a stream has the same outcome as sending it in one piece.",
 ['inputs','schedules'],"every segmentation of every inbound byte stream, including single bytes and cuts inside the length field",
 "No test runs the framing code.",[CO,LIB],[('decode waits for a complete packet and consumes exactly that',CO)],
 [('read buffer','bytes of an incomplete packet',CO)],['notifications','bytes written','result of the event loop future'])
prop('C12','No broker input crashes or hangs the client',
 "Whatever bytes a broker sends, at whatever point, and however it ends the stream, the event loop does not panic and does not spin or hang: it keeps serving the connection or finishes with a result.",
 ['inputs','fault_sequences'],"every byte stream: truncations, corruptions, random bytes, unsupported packet types, at any stage of the connection",
 "Tests try one malformed string and one malformed property.",[CO,PR+'mod.rs',PR+'publish.rs',PR+'connack.rs',PR+'suback.rs',PR+'unsuback.rs',PR+'puback.rs',PR+'disconnect.rs',PR+'properties.rs',LIB],
 [('decoding errors are returned as errors',PR),('errors end the event loop',LIB+' fn poll')],(),['event loop future: panic, progress, result'])
prop('C13','Malformed or unsupported input ends the connection with an error',
 "When the broker sends a packet that is malformed (a length that exceeds the packet, an invalid reason code, property, QoS, UTF-8 string or length field, packet identifier zero) or that the client does not support (QoS 2 exchanges, AUTH, packets only a client may send, a second CONNACK), the event loop finishes promptly with an error. Packets before it are handled normally; neither it nor anything after it is acknowledged or notified.",
 ['inputs'],"every malformed or unsupported packet after every prefix of good ones",
 "One malformed string and one malformed property block are tested, without an event loop.",[CO,PR+'mod.rs',PR+'publish.rs',PR+'connack.rs',PR+'suback.rs',PR+'unsuback.rs',PR+'puback.rs',PR+'disconnect.rs',PR+'properties.rs',LIB],
 [('validation in FromMqttBytes/TryFrom',PR),('read errors end the event loop',LIB+' fn poll')],(),['result of the event loop future','notifications','bytes written'])
prop('C14','Keep-alive: a ping every interval, answered or not at most one outstanding',
 "From the CONNACK on, for as long as the connection lives, peer and application keep reading and the broker answers pings, the client writes a PINGREQ in every keep-alive interval it announced, whatever other traffic there is. It never writes a PINGREQ while an earlier one is unanswered, and not more than one per interval.",
 ['schedules','histories'],"every interleaving of traffic with time, over arbitrarily many intervals",
 NOEL+" No test involves time.",[LIB,PR+'pingreq.rs'],[('interval tick in the select loop',LIB+' fn poll')],[('pingresp_received','whether the last ping was answered',LIB)],['bytes written over (virtual) time'])
prop('C15','A silent broker is detected, a responsive one is never dropped',
 "If the broker does not answer a PINGREQ with a PINGRESP within one keep-alive interval the event loop finishes with an error by the end of that interval, whatever other traffic arrives. If every PINGREQ is answered before the next one is due, the connection is never ended for lack of an answer, however long it lasts (provided the application keeps taking notifications).",
 ['schedules','histories','fault_sequences'],"every pattern of answered, late and missing PINGRESP packets mixed with other traffic, over many intervals",
 NOEL+" No test involves time.",[LIB,PR+'pingresp.rs'],[('outstanding ping checked at the next tick',LIB+' fn poll')],[('pingresp_received','whether the last ping was answered',LIB)],['result of the event loop future over (virtual) time'])
prop('C16','A requested disconnect is clean and final',
 "When the user disconnects, the client transmits every command accepted earlier, then exactly one normal DISCONNECT, closes the connection, and the event loop finishes successfully. Nothing is written after the DISCONNECT and commands accepted after the disconnect call are not transmitted.",
 ['schedules','histories'],"every history before and after the disconnect call, from any handle, interleaved with inbound traffic",
 NOEL,[LIB,CL,PR+'disconnect.rs'],[('Disconnect command ends the loop after the write',LIB+' fn poll')],(),['bytes written','result of the event loop future'])
prop('C17','How the broker ends the connection decides the result',
 "When the broker ends an established connection the event loop finishes promptly: successfully for a DISCONNECT with the normal reason and for an end of stream between packets, with an error for a DISCONNECT with any other reason and for an end of stream inside a packet or a reset. Everything complete that the broker sent before is notified and, while the socket allows, acknowledged first, and the client writes nothing after it finished.",
 ['inputs','fault_sequences'],"every way to end the stream at every byte position, all DISCONNECT reasons, after any traffic",
 NOEL,[LIB,PR+'disconnect.rs',CO],[('Disconnect packet and None/Err from the reader end the loop',LIB+' fn poll')],(),['result of the event loop future','notifications'])
prop('C18','Dropping handles never kills or stalls the connection',
 "Dropping some or all client handles at any time leaves the connection running: commands already accepted are still transmitted, inbound messages are still notified and acknowledged, pings go on, and the event loop uses no processor time while idle. Dropping the notification receiver likewise only means that notifications are discarded: commands, acknowledgements, pings and termination go on as before.",
 ['schedules','histories'],"every point at which handles or the receiver are dropped",
 NOEL,[LIB,CL],[('end of the command stream disables its branch',LIB+' fn poll'),('failed notification sends are ignored',LIB+' fn poll')],(),['bytes written','notifications','polls of the event loop future'])
prop('C19','The command API never blocks, and refuses only when it must',
 "API calls return at once. A call is refused only if at least 100 accepted commands are waiting to be transmitted, the event loop is gone, or its arguments are unrepresentable; a refused command is never transmitted and does not disturb accepted ones, and once commands drain calls are accepted again; all of this from any number of threads at once. Once the event loop has finished and been dropped, or has been dropped unfinished, every command is refused.",
 ['schedules','histories'],"every burst of calls from any number of handles at every stage of the connection and any backlog",
 NOEL,[CL,LIB],[('bounded channel and try_send',CL)],[('commands channel','accepted, not yet transmitted commands',CL)],['API return values','bytes written'])
prop('C20','Stimuli are handled one at a time, completely, in order',
 "Whatever the timing, everything the client writes, notifies and returns is explainable by handling broker packets, user commands and keep-alive ticks one at a time, each completely (its write, its notification, its effect on the connection) before the next is begun, broker packets in arrival order and commands in acceptance order. In particular nothing handled is lost, repeated or left half-done because another stimulus, slow consumer or blocked socket came in between.",
 ['schedules','histories'],"every interleaving of simultaneous stimuli, including pending ones at termination and under backpressure",
 NOEL,[LIB],[('select loop whose branches only become effective when chosen, with handlers run to completion',LIB+' fn poll')],(),['bytes written','notifications','result of the event loop future'])
prop('C21','Memory and processor use depend on what is outstanding, not on history',
 "What the client keeps in memory is bounded by what is outstanding at the moment (commands waiting to be transmitted, requests in flight, notifications not taken, the packet being read or written), plus buffers a few times the size of the largest packet, never by how much traffic it has carried: after any number of messages and acknowledged requests it holds no more than before. What is outstanding is bounded too: a broker that sends to an application that takes no notifications, and an application that publishes to a peer that does not read, do not make it buffer without limit. While nothing happens but the passing of time, the event loop sleeps: it is woken for keep-alive only.",
 ['histories','schedules'],"every long history of publishes, subscriptions, inbound messages and acknowledgements, every backlog, every idle period",
 NOEL+" The longest test does 14 steps; none looks at memory or wake-ups.",[LIB,CL,CO,PK],
 [('acknowledged publishes are removed from the queue',LIB+' fn poll'),('bounded channels',CL),('vacant ids kept as merged ranges',PK),('read buffer advanced past each packet',CO),('select loop waits for a stimulus',LIB+' fn poll')],
 [('queue','unacknowledged publishes',LIB),('ranges','vacant identifiers',PK)],['bytes allocated by the client','wake-ups of the event loop future'])
prop('C22','When the event loop is over, everything is over',
 "Once the event loop has finished, with whatever result, or the application has dropped it before that (at any point), its TCP connection is closed and nothing more is written, the notification stream delivers what was notified before and then ends (so that an application reading it to the end is not left waiting), and every further API call through any handle is refused at once.",
 ['fault_sequences','schedules'],"every way the event loop can finish and every point at which it can be dropped, with any backlog of commands and notifications",
 NOEL,[LIB,CL],[('the event loop owns the socket and the only notification sender',LIB+' struct EventLoop, fn poll'),('the command receiver is dropped with the event loop',LIB+' fn poll'),('notification channel',CL)],
 [('notifications_tx','sender whose drop ends the notification stream',LIB)],['end of stream on the socket','end of the notification stream','API return values'])
prop('C23','Clients in one process are independent',
 "A process may run any number of clients, to any brokers, with their event loops and API calls interleaved in any way: each behaves exactly as it would alone. In particular its packet identifiers, commands, partly received packets, notifications, keep-alive and end are its own, and one that waits (for its broker, its consumer or an identifier), fails or is dropped does not hold up, end or change another.",
 ['schedules','histories'],"every number of clients and every interleaving of their event loops, with everything each may do",
 "No test runs two clients at once.",[LIB,CL,CO,PK],
 [('all state is owned by the event loop value',LIB+' struct EventLoop'),('identifier pool per event loop',PK),('channels created per client',CL+' fn new')],(),['bytes written','notifications','API return values','result of the event loop future'])
prop('C24','The client connects where it was told, once, when it is driven',
 "Creating a client does nothing by itself: no connection is made before the event loop is first polled, and brokers that come up between creation and that moment are found; calls made before are kept like any others. Driving the event loop makes exactly one connection, to the address given in whatever form (socket address, text, host and port, list, IPv4 or IPv6), trying every address it stands for until one accepts; only if none does it finishes with an error. It never connects again: not after a refusal, an error or the end of the connection, and never once it was dropped.",
 ['histories','fault_sequences'],"every form of address, every choice of which of its addresses accept, every order of creation, brokers coming up, calls, drops and the first poll",
 NOEL,[CL,LIB],[('lazy connect future stored in the event loop',CL+' fn new'),('NotConnected -> MqttConnected',LIB+' impl Future for EventLoop')],(('state','whether there is a connection yet',LIB),),['TCP connections arriving at the brokers','result of the event loop future'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
