# generates /verif/properties.jsonl
import json
P=[]
def p(id,title,statement,over,text,why,files,syms=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=x,where=files[0]) for x in (syms or [])])))
p("C01","Encoding is faithful and its announced size exact",
 "Every AMQP frame, SASL frame, message and value that the library's types can represent is encoded to bytes which an AMQP 1.0 decoder reads back as the same frame, field by field, and which the library's own decoder turns back into an equal value. The size announced before encoding equals the number of bytes written, so a frame's length prefix is always exact, also for a message that was modified after its size was first asked for.",
 ["inputs","histories"],"all values of every frame, message section and primitive type; all sequences of builder/mutator calls on a message",
 "the unit tests encode about thirty hand-picked values; field combinations, size-class boundaries (0/1/255/256 bytes or elements) and modify-after-size histories are unbounded",
 ["codec/src/codec/encode.rs","codec/src/protocol/definitions.rs","codec/src/message/message.rs","codec/src/message/body.rs","codec/src/io.rs"],["Encode","AmqpCodec","Message"])
p("C02","Every valid encoding decodes to the value AMQP defines",
 "For every AMQP 1.0 encoding of a frame, message section or value, whichever of the alternative constructors the peer chose, with trailing fields omitted or null, the decoder returns exactly the value the specification denotes, including the specified defaults for absent fields. A mandatory field that is missing, or a constructor the specification does not allow for its position, is reported as an error and never as some other value.",
 ["inputs"],"all combinations of wire constructors for all field types and positions",
 "tests decode a few byte strings; they pin neither each alternative constructor at each position nor the default/omission rules",
 ["codec/src/codec/decode.rs","codec/src/protocol/definitions.rs","codec/src/message"],["Decode","DecodeFormatted"])
p("C03","No received bytes can crash, hang or exhaust the decoder",
 "No byte sequence a peer can send makes frame decoding panic, abort, recurse without bound, loop, or allocate memory out of proportion to the bytes received: every input yields a frame, a request for more bytes, or an error. Decoding one frame never consumes or depends on bytes beyond that frame's declared size.",
 ["inputs"],"all byte sequences, in particular every truncation and every single-byte corruption of valid frames and every size/count field value",
 "tests feed a handful of malformed inputs; memory safety and termination must hold for every byte string",
 ["codec/src/io.rs","codec/src/codec/decode.rs","codec/src/framing.rs"],["AmqpCodec","decode"])
p("C04","Frame boundaries do not depend on how bytes arrive",
 "The sequence of frames and errors obtained from a connection is a function of the byte stream alone: it is the same however the stream is split into reads, a frame is delivered as soon as its last byte has arrived and not before, and the following frame starts right after it. A frame longer than the configured maximum, or shorter than a frame header, is rejected, and a frame of exactly the maximum is accepted.",
 ["inputs","schedules"],"all splittings of all streams of frames, for the AMQP, SASL and protocol-header codecs",
 "tests write whole frames in one piece; the partitions of a stream are exponentially many",
 ["codec/src/io.rs","codec/src/framing.rs","codec/src/protocol/mod.rs"],["AmqpCodec","ProtocolIdCodec"])
p("C05","The server accepts a connection exactly for a valid opening sequence",
 "A server establishes a connection exactly when the peer performs the AMQP opening sequence - protocol header, optional SASL exchange ending in a successful outcome granted by the application, then Open - and answers each step exactly once and in order; the application sees the peer's header kind, SASL mechanism, initial response, hostname, challenge responses and Open fields unchanged. Any other sequence, a refused authentication, a disconnect or silence beyond the handshake timeout ends the attempt without any AMQP traffic being processed or any message handler being created.",
 ["inputs","histories","fault_sequences"],"all opening sequences of peer actions up to the bound, in all groupings into reads, with disconnect or silence at every point",
 "tests run one or two good handshakes; the wrong orders, refused outcomes, fragmentations and disconnect points are not sampled",
 ["src/server/service.rs","src/server/handshake.rs","src/server/sasl.rs"],["Server","Handshake","Sasl"])
p("C06","The client only treats a connection as open after a valid exchange",
 "A client connector sends its protocol header (SASL first when credentials are given, carrying the given mechanism, identities and password unchanged), proceeds to AMQP only after the peer confirmed the same header and reported a successful SASL outcome, and reports success exactly when the peer's Open arrived. Every other peer behaviour - other header, other frame, failed outcome with its code, disconnect, silence - is reported as the corresponding error and nothing further is sent.",
 ["inputs","histories","fault_sequences"],"all peer response sequences up to the bound, fragmentations and disconnect points",
 "tests connect to the crate's own server on the happy path only",
 ["src/client/connector.rs","src/client/connection.rs"],["Connector","Client"])
p("C07","A closed connection stays closed and says so once",
 "When either side closes the connection the endpoint emits exactly one Close frame, as its last frame, on channel 0; after a Close was sent or received no other frame is emitted and none of the peer's later frames reach the application. After a close, a protocol error, an undecodable frame or a lost transport the connection task terminates, the connection reports itself not open, and everyone waiting for the connection's closing is notified.",
 ["histories","schedules","fault_sequences"],"all interleavings of local close, peer Close, protocol violations, disconnect and ongoing traffic",
 "tests close an idle connection once; simultaneous closes, traffic in flight and disconnects at each point are not exercised",
 ["src/connection.rs","src/dispatcher.rs"],["Connection","ConnectionRef"])
p("C08","No pending operation is left hanging",
 "Every pending operation - opening a session, attaching a link, sending a message, waiting for credit, for a delivery outcome, for an incoming message, for a detach, for a session end or for the connection's close - completes, with an error where it could not succeed, once the link, session or connection it depends on is detached, ended, closed or lost, by either side and in whatever state the operation was.",
 ["histories","schedules","fault_sequences"],"all histories that have operations pending at a termination event, all termination events, all orders",
 "a hang needs a particular operation pending at a particular termination; tests await one pair or none",
 ["src/session.rs","src/sndlink.rs","src/rcvlink.rs","src/delivery.rs","src/connection.rs"],["Session","SenderLink","ReceiverLink","Delivery"])
p("C09","Sessions are opened, mapped and ended exactly as negotiated",
 "Every Begin of the peer is answered by exactly one Begin naming the peer's channel, a locally opened session completes exactly when its answering Begin arrives, and frames of a session travel only on the channel this side announced for it, between this side's Begin and End. Every End is answered exactly once, a channel number is reusable after its session ended, and no session is opened on a channel above the negotiated channel-max.",
 ["histories","inputs"],"all sequences of session operations of both sides, with different channel numbers on the two sides",
 "tests open one session with equal numbers on both sides; mapping mistakes show only when local and remote numbers differ or are reused",
 ["src/connection.rs","src/session.rs"],["Session","ConnectionInner"])
p("C10","Links attach and detach exactly once with correct handles",
 "Every Attach of the peer is answered by exactly one Attach of the opposite role with the same name and a handle not in use in that session (followed by a Detach when the link is refused), a locally started attach completes exactly when the peer's Attach for that name arrives, and every Detach of the peer is answered by exactly one Detach unless this side had already sent its own. No frame for a link is sent before its Attach or after its Detach, and a handle or name is reusable once both sides detached.",
 ["histories","schedules"],"all sequences of link operations by both sides, with several links and reused handles and names, and all timings of the application's attach decision",
 "tests attach one link; reuse, refusal, simultaneous detach and detach during a pending attach are multi-step histories",
 ["src/session.rs","src/sndlink.rs","src/rcvlink.rs","src/dispatcher.rs"],["Session","SenderLink","ReceiverLink"])
p("C11","Detaching or ending one thing leaves everything else working",
 "Detaching a link, by either side and with or without error, changes nothing for the other links of the session, and ending a session changes nothing for the other sessions of the connection: their handles stay valid, their waiting sends stay queued and are sent when capacity arrives, their unsettled deliveries still get their outcome, and their incoming messages are still delivered.",
 ["histories"],"all assignments of local and remote handles/channels to two or more links/sessions and all detach/end orders",
 "cross-talk needs two links or sessions whose numbers collide in a particular way on the two sides",
 ["src/session.rs","src/connection.rs"],["Session"])
p("C12","A sender never exceeds the link credit it was given",
 "On every sending link, the number of deliveries started never exceeds the limit given by the peer's most recent Flow (its delivery-count, or the initial delivery-count when absent, plus its link-credit), also when the peer lowers the credit while deliveries are in flight; and every send that is waiting is released, in order, as soon as the peer's flow allows it.",
 ["histories","schedules"],"all histories of sends, flows (grant, raise, lower, zero, repeated, without delivery-count) and their interleavings with running sends",
 "tests grant a large credit once; lowering, exact exhaustion and refill with several waiters are schedule dependent",
 ["src/sndlink.rs","src/session.rs"],["SenderLink"])
p("C13","A session never sends more transfers than the peer's window",
 "The number of transfer frames sent on a session never exceeds the peer's incoming-window as last communicated by Begin or Flow (counted from the peer's next-incoming-id, or from the initial outgoing id when the peer does not state it), also when the window is lowered below what is in flight; sends blocked on the window resume when it reopens; and Flow frames sent by this side, including the reply to an echo request, state its own counters truthfully and never leave the peer without incoming window for what it may still send.",
 ["histories","schedules"],"all histories of sends over one or more links with windows of 0, 1, 2, ... and all flow updates",
 "tests run with a window far larger than the traffic",
 ["src/session.rs"],["Session"])
p("C14","Each sent message goes out exactly once, whole, in order",
 "Every message whose send succeeded appears on the wire exactly once, on its own link, byte for byte, with the tag, format and settled flag the caller chose, as one transfer or as consecutive fragments of one delivery of which only the last says that no more follows, no frame exceeding the peer's maximum frame size; a send that failed or was abandoned while waiting put nothing on the wire. No message larger than the peer's maximum message size is sent, and none within it is refused for its size. Messages of one link appear in the order in which they were sent, and delivery numbers on a session are consecutive and delivery tags distinct among unsettled deliveries of a link.",
 ["histories","inputs","schedules"],"all message sizes around the fragmentation limits, all interleavings of sends on several links with flows",
 "fragmentation boundaries times waiting/cancellation schedules are not sampled by tests",
 ["src/session.rs","src/sndlink.rs","src/delivery.rs"],["SenderLink","TransferBuilder"])
p("C15","A sent delivery learns exactly the outcome the peer gave it",
 "Waiting on a sent delivery returns the state of the peer's disposition that covers that delivery number - whether it arrived before or after the wait began, alone or in a range, settled or not - and never the state of another delivery or of the opposite direction; a delivery sent settled needs no outcome. A delivery the peer has settled triggers no further disposition from this side, and one not yet settled is settled by this side exactly once, when it is settled or dropped.",
 ["histories","schedules"],"all orders of sends, waits, settles, drops and dispositions with all ranges, roles and states",
 "tests wait for one accepted delivery",
 ["src/delivery.rs","src/session.rs"],["Delivery"])
p("C16","Incoming messages reach the application once, in order and whole",
 "Every complete delivery the peer sends on an established receiving link within its credit is handed to the application exactly once, in order, on the link it was addressed to, with its id, tag, settled flag, format and the concatenation of its fragments as body; an incomplete or aborted delivery is never handed out. Deliveries of different links and sessions may interleave at fragment granularity without mixing.",
 ["histories","schedules","inputs"],"all interleavings of fragments of several deliveries over links and sessions, with aborts, and all timings of the application's reads",
 "tests send whole single messages or one multi-frame message on one link",
 ["src/rcvlink.rs","src/session.rs","src/dispatcher.rs"],["ReceiverLink"])
p("C17","A receiver enforces its credit and message size limit",
 "The peer can use exactly the credit the application granted: the granted credit is announced by a Flow that carries the link's delivery count, each completed delivery uses one, and a delivery begun without credit causes the link to be detached with a transfer-limit-exceeded error and is not handed to the application. A delivery assembled from several transfers is accepted up to and including the link's maximum message size and otherwise causes a detach with a message-size-exceeded error.",
 ["histories","inputs"],"all histories of grants and (multi-frame) deliveries around exhaustion and around the size limit",
 "tests never run a receiver out of credit or over its size limit except in one case",
 ["src/rcvlink.rs"],["ReceiverLink"])
p("C18","Each received delivery is settled once with the right outcome",
 "For every received delivery that the peer did not send settled, the endpoint sends exactly one settling disposition with that delivery's number, the receiver role and the state the application chose; when the application drops it unsettled, it is rejected. No disposition is sent for a delivery sent settled, or a second time after it was settled locally, and after the link or session is gone nothing is sent for it.",
 ["histories","schedules"],"all orders of settle, update, drop, remote settle, detach, end",
 "tests accept one message",
 ["src/delivery.rs","src/session.rs","src/router.rs"],["Delivery"])
p("C19","The router delivers to the address's handler and settles with its outcome",
 "With a router, an incoming link is served by the handler registered for its address, each of its messages is passed to that handler exactly once in order, and is settled with the outcome the handler returned - accepted, or rejected with the handler's error - whatever the order in which handlers finish. A link whose address matches no handler, or has none, is refused with an error, and links that attach or detach while handlers run never disturb messages of other links.",
 ["histories","schedules"],"all orders of attach, detach, messages and handler completions over several links",
 "tests route one message; handler completion orders and concurrent attach/detach are schedules",
 ["src/router.rs","src/dispatcher.rs"],["Router","Link"])
p("C20","The control service hears of every link and session event exactly once",
 "The application's control service is called exactly once for each remotely opened link, for each Flow addressed to a sending link, for each detach and session end by either side of an established link or session, with the affected links, and once for the connection's end; and its answer decides the outcome: an error refuses the link or detaches it with that error, success lets it proceed, whatever the time it takes and the order in which calls finish.",
 ["histories","schedules"],"all event histories and all completion orders and results of control calls",
 "tests use the default control service, or one that answers at once",
 ["src/dispatcher.rs","src/control.rs","src/session.rs"],["ControlFrame"])
p("C21","Idle time-outs are honoured in both directions",
 "When the peer announced an idle time-out, this side never stays silent for longer than that time-out while the connection is open, however long the connection stays idle; when the application configured a keep-alive time for the connection, a peer that sends nothing for that long is disconnected and the application is told, and a peer that keeps sending, if only empty frames, is not.",
 ["schedules","inputs"],"all announced time-outs and all timings of traffic, in virtual time",
 "real-time tests cannot wait for minutes, and sample one time-out at most",
 ["src/dispatcher.rs","src/lib.rs","src/server/service.rs","src/client/connection.rs"],["Dispatcher"])
p("C22","No sequence of peer frames can crash the endpoint",
 "Whatever well-formed frames a peer sends in whatever order, with whatever channel numbers, handles, delivery numbers, ranges and counters, and whatever the application does at the same time through the public API, the endpoint never panics, loops, or accesses freed memory, and does work proportional to the frames received. Frames that refer to unknown sessions or links end the connection with an error or are ignored; they are never applied to another session or link.",
 ["histories","inputs","schedules"],"all frame sequences up to the bound over an alphabet of boundary values, interleaved with API calls",
 "the reachable protocol states times hostile frames are far beyond a test suite",
 ["src/connection.rs","src/session.rs","src/sndlink.rs","src/rcvlink.rs","src/delivery.rs"],["ConnectionInner","SessionInner"])
p("C23","What the application can ask about the endpoint is true",
 "At every quiet point of every history, what the public accessors say agrees with what happened on the wire: a link, session or connection says it is open exactly while it is and closed afterwards; looking up a link or session by local or remote handle, channel or name finds exactly the live one and never one that is gone; the sender's credit, the peer's remaining window, handles, names, limits, the error of a failed link or session, and a delivery's settled state and remote state are those of the protocol exchange.",
 ["histories"],"all histories of both sides up to the bound, judged after every step",
 "tests call an accessor once or twice on a fresh link; stale or wrong answers appear only after detach, re-attach, partial credit use or remote settlement",
 ["src/session.rs","src/sndlink.rs","src/rcvlink.rs","src/connection.rs","src/delivery.rs"],["Session","SenderLink","ReceiverLink","ConnectionRef","Delivery"])
p("C24","What the application asks for is sent as asked, what the peer says is shown as said",
 "Everything the application sets appears in the right field of the frame that is sent for it, with the last setting winning and nothing else changed: the limits, idle time-out, host name and capabilities of the service configuration in Open; capabilities and properties in Begin; the name, addresses, properties, capabilities, settle modes, delivery count and maximum message size of the link builders, and what a service changes in the answer to an Attach, in Attach; tag, format and settlement in Transfer; delivery states in Disposition; errors with condition, description and info in Detach and Close. Everything the peer puts in Open, Begin, Attach, Flow, Transfer, Disposition, Detach, End and Close reaches the application unchanged wherever the library reports it: in the handshake, the frames handed to the control, router and message services, the accessors, and the results of the calls that are waiting (sends, settlements, attaches, session openings, receives), including errors with all they say.",
 ["inputs","histories"],"all values of every field and pairs of fields, all sequences of builder calls up to the bound, every way an error is reported",
 "tests set one option and read one field; values that get dropped, swapped, cached or reported at one place only need each field at each place",
 ["src/lib.rs","src/session.rs","src/connection.rs","src/sndlink.rs","src/rcvlink.rs","src/delivery.rs","src/control.rs"],["AmqpServiceConfig","OpenSession","SenderLinkBuilder","ReceiverLinkBuilder","TransferBuilder","ControlFrameKind","Delivery"])
p("C25","Services live exactly as long as what they serve, and are called only when ready",
 "For every connection whose opening completes, one message service and one control service are created (none otherwise), and each is shut down exactly once, when the connection has ended, however it ended and whatever state the services are in; a router creates one handler service per routed link and shuts it down exactly once, at the latest when its link is detached by either side, its session ends, or the connection ends. A service is never called before its creation completed, while it reports that it is not ready, or after its shutdown. While the message or the control service is not ready the peer's frames wait, and once both are, everything is handled as if it had arrived just then: nothing lost, repeated or reordered. While a handler is not ready its messages wait in order and no other link is held up. A message or control service whose readiness check fails closes the connection with that error, a handler whose check fails has its link detached with an error, and in every case the connection's task ends once what it waits for is done.",
 ["histories","schedules"],"all sequences, up to the bound, of peer frames, application calls and changes of the services' readiness (ready, not ready, one call at a time, failing, calls that fail)",
 "tests use services that are always ready and never look at their shutdown; the interplay of readiness, failure and teardown has no test at all",
 ["src/dispatcher.rs","src/router.rs","src/server/service.rs","src/client/connection.rs","src/control.rs"],["Dispatcher","RouterService","ControlQueue"])
p("C26","What is over leaves nothing behind",
 "However often sessions and links are opened, used and closed again on a connection, messages sent, received, fragmented, aborted, settled or dropped, and sends, waits, openings and closings abandoned half-way, once all of that is over the memory the endpoint holds comes back to where it was, whatever stays open keeps working, names, handles and channels can be used anew, and the peer is never left for good without credit on a link that a router serves. The same holds for whole connections: a connection that has ended, in whatever way and with whatever was still open or waiting in it, leaves nothing behind once the application has dropped what it held of it.",
 ["histories"],"all sequences of operations and peer frames up to the bound, each repeated until a growth would show, and all ways a connection ends",
 "tests make one connection, use it for a handful of frames and never measure; a table entry, waiter or reference cycle left behind per link, send or connection shows only after long use of a server",
 ["src/session.rs","src/connection.rs","src/sndlink.rs","src/rcvlink.rs","src/delivery.rs","src/router.rs"],["SessionInner::remove_link","SessionInner::drop_state","ConnectionInner::set_error","Delivery","RouterService"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
