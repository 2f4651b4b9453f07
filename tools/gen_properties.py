import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if obs: d['anchors']['observe_at']=obs
    d['anchors']['hook_needed']=None
    P.append(d)

p('C01','Every packet survives the wire unchanged',
 'A packet of any type encoded on one side and decoded on the other has the same type, packet ID, session ID and every payload field (data, key/method/topic, custom bytes, error text, client ID, meta, peer, heartbeat interval, flags; text fields being valid UTF-8). The result does not depend on how the byte stream is cut into reads, and decoding consumes exactly the bytes of that packet so that back-to-back packets never bleed into each other.',
 ['inputs'],'all packet types x payload alphabet (empty, short, multi-byte, nil/non-nil error, every heartbeat step, every flag) x every split of the byte stream into reads x sequences of packets',
 'One unit test checks a header byte; the end-to-end tests send a few packet shapes over TCP with whatever fragmentation the kernel chooses.',
 ['packet/decode.go','packet/packet.go','packet/packet_conn.go','packet/packet_sess.go','packet/packet_data.go','packet/factory.go'],
 [('packet encoders and decoders','packet/decode.go Decode/DecodeFromReader/EncodeToWriter; packet/packet_*.go Encode/Decode'),('fixed 14-byte header with length','packet/packet.go PacketHeader')],
 obs=['packet.EncodeToWriter','packet.DecodeFromReader','packet.Decode'])
p('C02','Malformed wire input never crashes a decoder or an end',
 'Bytes that are not a well-formed packet (unknown type, truncated header or payload, inconsistent inner lengths, impossible flags, invalid embedded data) make decoding return an error; they never panic, never read outside the buffer and never make decoding wait for bytes beyond the announced packet length. A peer that sends such bytes, or legal packets out of protocol order, can at worst lose its own connection.',
 ['inputs','fault_sequences'],'every packet type x every truncation point x boundary values of every length field x single-byte corruptions of structural fields; every prefix of a valid conversation followed by garbage or an out-of-order packet',
 'No test feeds malformed bytes; the input space is all byte strings.',
 ['packet/decode.go','packet/packet_conn.go','packet/packet_sess.go','packet/packet_data.go','conn/conn_base.go'],
 [('length checks in decoders','packet/packet_*.go Decode/DecodeFromReader'),('decode error closes the connection','conn/conn_base.go readPkt')],
 obs=['packet.DecodeFromReader','packet.Decode','server.NewEndWithConn over a raw byte connection'])
p('C03','Publish succeeds exactly when the receiver acknowledged that message',
 'A blocking or asynchronous publish that asks for acknowledgement completes successfully only after the receiving application marked that very message done; if the application marked it failed, the publisher gets that error text; otherwise it completes with an error. An at-most-once publish never waits for the application, and acknowledgements of different messages are never mixed up, whatever order they are acknowledged in.',
 ['schedules','histories'],'all interleavings (bounded deviations) of 2-3 concurrent publishers on both ends with receivers acknowledging in any order, with Done or Error, for every consistency level',
 'TestMessage publishes one message and acknowledges it on whatever schedule the machine gives.',
 ['application/message.go','application/stream.go','application/types.go'],
 [('wait keyed by packet ID','application/message.go Publish/PublishAsync, stream.shub'),('ack routing','application/stream.go handleInMessagePacket/handleInMessageAckPacket'),('Done/Error','application/types.go message')],
 obs=['geminio.End.Publish','geminio.End.Receive','geminio.Message.Done/Error'])
p('C04','Messages arrive intact, in publishing order and exactly once',
 'While the connection and the stream are alive, every message published on a stream is handed to exactly one receive call on the peer stream, with the same data, topic, custom bytes, consistency and timeout, in the order of publication by one publisher, as long as the receiver keeps up within the buffering of the stream. No message is duplicated, merged, altered by later traffic or delivered to another stream.',
 ['schedules','inputs','histories'],'all bounded-deviation interleavings of publishers on both ends and on several streams with receivers, over payload/topic/custom alphabets including empty and reused caller buffers',
 'Tests look at one message at a time and never compare payload, order and multiplicity under concurrency.',
 ['application/message.go','application/stream.go','multiplexer/dialogue.go','multiplexer/dialogue_mgr.go','conn/conn_base.go'],
 [('single reader/writer goroutine per layer','conn/conn_base.go readPkt/writePkt; multiplexer/dialogue.go handlePkt'),('message queue','application/stream.go handleInMessagePacket, messageCh')],
 obs=['geminio.Stream.Publish','geminio.Stream.Receive'])
p('C05','An RPC call returns the response to that very call',
 'A call to a registered method runs the handler exactly once with the caller\'s data, custom bytes, method and identity, and returns exactly the data, custom bytes and error that this handler invocation set. A handler error is reported as an error with the same text, a call to a method that nobody registered is reported as an error, and neither disturbs other calls in flight in either direction.',
 ['schedules','histories'],'all bounded-deviation interleavings of 2-3 overlapping calls in both directions (same/different methods, handlers that finish out of order, nested calls from handlers, unregistered methods)',
 'TestCall performs a single call; overlapping calls and out-of-order responses are never examined.',
 ['application/rpc.go','application/stream.go','application/types.go'],
 [('wait keyed by packet ID','application/rpc.go Call/CallAsync, stream.shub'),('handler dispatch','application/stream.go handleInRequestPacket/doRPC'),('response routing','application/stream.go handleInResponsePacket')],
 obs=['geminio.End.Call','geminio.End.Register'])
p('C06','Every asynchronous call or publish completes exactly once',
 'Each asynchronous call or publish that was accepted delivers exactly one completion on its channel (the caller\'s or the returned one), carrying the same outcome the blocking variant would have returned: the response for a successful call, the error otherwise. This holds when the peer answers, answers with an error, times out, or the stream or connection goes away, and the completion is never lost or duplicated.',
 ['schedules','fault_sequences'],'all bounded-deviation interleavings of asynchronous operations with responses, timeouts, stream close, end close and connection loss',
 'Only the benchmark uses the asynchronous API and it never checks contents or failure paths.',
 ['application/rpc.go','application/message.go','application/stream.go'],
 [('completion callbacks','application/rpc.go CallAsync; application/message.go PublishAsync; synchub callbacks')],
 obs=['geminio.Call.Done','geminio.Publish.Done'])
p('C07','Timeouts and cancellation end the wait and nothing else',
 'While connected, a call or publish with a timeout, a context deadline or a cancelled context returns an error no later than that moment plus timer granularity, never earlier with a timeout error, and a result that arrived in time is returned. After it gave up, a late answer is discarded: it is never delivered to another operation, and later operations on the same stream work normally; a cancelled call\'s handler sees its context cancelled.',
 ['schedules','fault_sequences'],'all bounded-deviation interleavings of expiry/cancellation with the answer arriving before, at and after the limit, for call, async call, publish, async publish and receive',
 'No test sets a timeout or cancels; the interesting cases are exact races between expiry and answer.',
 ['application/rpc.go','application/message.go','application/stream.go','options/call_options.go','options/publish_options.go'],
 [('sync hub deadline/context','application/rpc.go Call; application/message.go Publish'),('request deadline/cancel propagation','application/stream.go handleInRequestPacket/handleInRequestCancelPacket')],
 obs=['geminio.End.Call','geminio.End.Publish','geminio.End.Receive','context passed to the RPC handler'])
p('C08','Raw bytes come out in order, complete and unmodified',
 'The bytes one side writes to a stream are read on the other side in the same order with none lost, duplicated, altered or reordered, whatever the sizes of writes and read buffers, as long as the reader keeps up within the documented buffering. A read with a non-empty buffer returns at least one byte or an error, never more than the buffer, and data delivered before the writer closed is still readable before end-of-file.',
 ['inputs','schedules','histories'],'all sequences of write sizes and read-buffer sizes over a small alphabet (0..5 bytes vs packet boundaries), all bounded-deviation interleavings of writers, readers and close',
 'Unit tests read with one buffer size from a mock; partial reads across packet boundaries and close races are not covered.',
 ['application/raw.go','application/stream.go'],
 [('leftover cache','application/raw.go Read, stream.cache'),('stream packet queue','application/stream.go handleInStreamPacket, streamCh')],
 obs=['geminio.Stream.Read','geminio.Stream.Write'])
p('C09','Read and write deadlines behave like net.Conn deadlines',
 'A read or write that is blocked, or starts later, returns a timeout error once its deadline passes and not before; setting a new deadline affects operations already blocked; a past deadline fails immediately unless the operation needs no wait (data had arrived for a read, there is room for a write); a zero deadline removes it and the stream is usable again after a timeout. Setting deadlines concurrently with I/O or close never hangs or crashes.',
 ['schedules','histories'],'all short histories of set-read/write/both-deadline (past, near, far, zero) x blocked/starting I/O x data arrival x close, all bounded-deviation interleavings',
 'The unit tests use sleeps and one order of events each.',
 ['application/raw.go','application/stream.go'],
 [('deadline channels and timers','application/raw.go setReadDeadline/setWriteDeadline/Read/Write')],
 obs=['geminio.Stream.SetDeadline/SetReadDeadline/SetWriteDeadline','geminio.Stream.Read/Write'])
p('C10','Streams are isolated and both sides agree on their identity',
 'Each opened stream is accepted exactly once by the peer; both sides see the same stream ID, client ID, meta and peer, and no two live streams of a connection share an ID even when both sides open at the same time. Messages, calls, registrations and raw bytes on one stream are never visible on another, and closing one stream leaves the others and the end working.',
 ['schedules','histories'],'all bounded-deviation interleavings of concurrent opens from one or both sides, traffic on 2-3 streams and close of one of them',
 'Examples open streams sequentially from one side; ID collisions and cross-talk need specific interleavings.',
 ['multiplexer/dialogue_mgr.go','multiplexer/dialogue.go','application/end.go','application/stream.go'],
 [('session negotiation','multiplexer/dialogue.go handleInSessionPacket/handleInSessionAckPacket'),('dialogue maps','multiplexer/dialogue_mgr.go dialogues/negotiatingDialogues'),('routing by session ID','multiplexer/dialogue_mgr.go handlePkt')],
 state=[('dialogues','live streams by ID','multiplexer/dialogue_mgr.go')],
 obs=['geminio.End.OpenStream/AcceptStream/ListStreams','geminio.Stream.StreamID/Meta/Peer'])
p('C11','Close always terminates and releases every waiter',
 'Closing a stream or an end, from either side or both at once, once or repeatedly, at any moment relative to other operations, returns in bounded time; every operation blocked on it (read, write, receive, call, publish, accept, open, register) on both sides returns with an error or its result, and operations started afterwards fail instead of blocking. It never panics and never deadlocks.',
 ['schedules','histories'],'all bounded-deviation interleavings of close (local, remote, simultaneous, repeated) with each kind of pending or new operation',
 'Tests close once after all traffic has ended; the property is about every instant.',
 ['application/stream.go','application/end.go','multiplexer/dialogue.go','multiplexer/dialogue_mgr.go','conn/conn_base.go','conn/conn_client.go','conn/conn_server.go'],
 [('dismiss / disconnect handshakes','multiplexer/dialogue.go Close; conn/conn_client.go Close; conn/conn_server.go Close'),('fini of each layer','application/stream.go fini; multiplexer/dialogue.go fini; conn/*.go fini')],
 obs=['geminio.End.Close','geminio.Stream.Close'])
p('C12','Losing the connection fails everything pending, promptly and cleanly',
 'If the underlying connection breaks, is half-closed or fails on a read or a write at any point of any conversation, every pending operation on both sides returns an error (or a result that had already arrived), accept and receive calls return an error, and later operations fail; nothing hangs or panics. No acknowledged operation (open, register, call, at-least-once publish) is reported successful that the peer did not carry out.',
 ['crash_points','fault_sequences','schedules'],'the connection cut after every byte/packet in either direction, read or write errors at every I/O call, during handshake, open, traffic and close, with bounded-deviation interleavings',
 'Only a Linux-only chaos test drops packets with netfilter; no test enumerates cut points.',
 ['conn/conn_base.go','conn/conn_client.go','conn/conn_server.go','multiplexer/dialogue_mgr.go','application/end.go'],
 [('I/O error propagation','conn/conn_base.go readPkt/writePkt/dowritePkt -> fini'),('channel close cascade','conn -> dialogueMgr.readPkt -> stream.readPkt')],
 obs=['geminio.End API under a failing net.Conn'])
p('C13','The handshake agrees on identity or fails on both sides',
 'When both sides of a connection come up they agree on the client ID (the one the client insisted on in its connect packet, else the nonzero one the server\'s delegate assigned, else the one the server end was configured with, else a generated one that no other client got) and the server sees the client\'s meta. When the server refuses the client, or the peer is silent or speaks out of order, both constructors return an error in bounded time (carrying the server\'s reason on the client when one was given) and leave nothing running.',
 ['inputs','schedules','fault_sequences'],'all combinations of requested ID / assigned ID / meta / delegate errors x bounded-deviation interleavings x missing, duplicated or unexpected handshake packets',
 'Tests only perform successful default handshakes.',
 ['conn/conn_client.go','conn/conn_server.go','client/end.go','server/end.go'],
 [('conn/connack exchange','conn/conn_client.go connect/handleInConnAckPacket; conn/conn_server.go wait/handleInConnPacket'),('state machine','conn initFSM')],
 obs=['client.NewEndWithConn','server.NewEndWithConn','delegates'])
p('C14','Heartbeats keep live peers and detect dead ones',
 'While both sides are alive, an idle connection stays up indefinitely: the client keeps sending heartbeats within the negotiated interval and the server answers each. When a client stops sending heartbeats, the server closes that connection within two heartbeat intervals plus the limit of the close handshake (10 s), reports it offline exactly once and pending operations fail; a heartbeat that arrives in time always prevents that (an application that leaves so much unread that every queue is full keeps heartbeats from arriving, too).',
 ['fault_sequences','schedules'],'heartbeats delivered/suppressed at every position of a sequence, for every negotiable interval, with bounded-deviation interleavings of expiry and arrival',
 'It takes at least tens of seconds of real time; tests never wait for a heartbeat.',
 ['conn/conn_client.go','conn/conn_server.go','packet/packet_conn.go'],
 [('client cyclic heartbeat','conn/conn_client.go sendHeartbeat'),('server expiry timer','conn/conn_server.go handleInHeartbeatPacket/waitHBTimeout')],
 obs=['server delegate Heartbeat/ConnOffline','net.Conn'])
p('C15','A retrying client end reconnects and keeps its registrations',
 'After any loss of the connection a retrying end reconnects as long as it has not been closed; operations issued meanwhile either succeed on a connection or return an error (no later than their context ends), previously registered methods and hijacks are available again to the server after reconnecting, and the reconnection is announced. After Close returns, the end stays closed: no further dial succeeds in reviving it and operations fail; Close never deadlocks with a reconnect in progress.',
 ['fault_sequences','schedules','crash_points'],'connection losses at every point of registration/call/publish/receive/open, dial failures then success, close racing with reconnect, bounded-deviation interleavings',
 'The chaos test needs netfilter and does not run here; the reconnect/close race is a schedule property.',
 ['client/end_retry.go','client/end.go'],
 [('reinit','client/end_retry.go reinit/getEnd'),('remembered registrations','client/end_retry.go register/Hijack'),('offline hook','client/end_retry.go ConnOffline')],
 obs=['client.NewRetryEndWithDialer','dial function','server side of each new connection'])
p('C16','Registration is effective when it returns and gates work as configured',
 'When Register returns success the peer can call the method immediately and is notified of it; an end configured to wait for remote methods becomes available only once, and as soon as, all of them are registered, in any order relative to its own start; an end configured to check remote methods rejects calls to methods the peer has not registered and accepts the registered ones, without impairing later operations.',
 ['schedules','configurations'],'all bounded-deviation interleavings of registration by the peer with construction and calls, for every combination of the wait/check/pre-register options',
 'Tests register long before they call.',
 ['application/end.go','application/rpc.go','application/stream.go'],
 [('register/ack','application/rpc.go Register; application/stream.go handleInRegisterPacket'),('wait for remote RPCs','application/end.go NewEnd'),('remote method check','application/rpc.go Call')],
 obs=['geminio.End.Register','SetWaitRemoteRPCs','SetRemoteRPCCheck','RemoteRegistration delegate'])
p('C17','Hijack handlers see exactly the calls they match',
 'A call whose method was not registered (a registration that returned an error counts as none) is handed to the hijack handler exactly when the handler\'s matching rule (match or not-match of its pattern; everything when no rule is given) selects the method name, with the real method name and request, and its response is returned to the caller; otherwise the caller gets an error and no handler runs. A registered method takes precedence exactly as the current precedence rule defines, independently of timing.',
 ['inputs','histories'],'all combinations of registered/unregistered methods x pattern alphabet x match/not-match/no rule x sync/async calls',
 'No existing test uses Hijack.',
 ['application/rpc.go','application/stream.go','options/hijack_options.go'],
 [('pattern match and dispatch','application/stream.go handleInRequestPacket; application/rpc.go Hijack')],
 obs=['geminio.End.Hijack','geminio.End.Call'])
p('C18','Concurrent legal use never crashes the process',
 'Any combination of documented operations called concurrently on ends, streams and listeners from several goroutines never panics (nil dereference, send on or double close of a closed channel, unlock of an unlocked lock, negative counter) and never performs unsynchronised concurrent access to shared tables that the runtime would turn into a fatal error.',
 ['schedules'],'all bounded-deviation interleavings of pairs and triples of operations taken from the whole public API (open, accept, list, call, register, publish, receive, read, write, deadlines, close, connection loss)',
 'Crashes need a specific interleaving; tests run one operation at a time on one CPU.',
 ['application/stream.go','application/end.go','multiplexer/dialogue_mgr.go','multiplexer/dialogue.go','conn/conn_base.go','pkg/id/id.go'],
 [('locks around maps and state','application/stream.go mtx; multiplexer/dialogue_mgr.go mtx'),('write-after-close guards','conn/conn_base.go Write; multiplexer/dialogue.go Write')],
 obs=['all public API'])
p('C19','Online and offline notifications are paired and truthful',
 'A delegate is told a connection or stream is online exactly once when it becomes usable and offline exactly once after it stops being usable, never offline without online and never online again after offline, with the same identifiers; every heartbeat received is reported. By the time an end has fully closed, each online notification has been matched by its offline notification.',
 ['schedules','fault_sequences'],'all bounded-deviation interleavings of open/close/connection loss on either side',
 'Tests install no delegates.',
 ['conn/conn_client.go','conn/conn_server.go','multiplexer/dialogue_mgr.go','multiplexer/dialogue.go','delegate/delegate.go'],
 [('online/offline callbacks','conn fini / handleInConnPacket; multiplexer dialogueMgr.DialogueOnline/DialogueOffline')],
 obs=['delegate.ServerDelegate','delegate.ClientDelegate'])
p('C20','Accepted and closed streams are reported exactly once',
 'Every stream opened by the peer is delivered exactly once, either to an accept call or to the configured accept callback, as a working stream; every such stream that ends for any reason is reported exactly once to the configured closed callback, after it was accepted, and disappears from the list of streams. Pending accept calls return an error once the end is closed.',
 ['schedules','histories'],'all bounded-deviation interleavings of 1-3 peer opens with accept calls/callbacks, stream closes from either side, end close and connection loss',
 'Examples accept a single stream.',
 ['application/end.go','multiplexer/dialogue_mgr.go','server/end.go'],
 [('accept/closed channels or callbacks','multiplexer/dialogue_mgr.go DialogueOnline/DialogueOffline; application/end.go AcceptDialogue/ClosedDialogue')],
 obs=['geminio.End.AcceptStream/ListStreams','SetAcceptStreamFunc','SetClosedStreamFunc'])
p('C21','Identifiers handed out are unique and keep their parity class',
 'An identifier generator never hands out the same ID twice while it is in use, under any number of concurrent callers and explicit reservations, except after the ID was given back; generators configured as odd or even stay in their class so that two sides of a connection can allocate concurrently without collision; explicit reservations are honoured by unique generators.',
 ['schedules','histories'],'all histories up to a depth over {get, reserve, release} for each mode and all bounded-deviation interleavings of 2-3 concurrent callers, for every random starting class',
 'There is no test of the generator.',
 ['pkg/id/id.go'],
 [('atomic counter and reservation table','pkg/id/id.go GetID/ReserveID/DelID')],
 obs=['id.IDCounter.GetID/ReserveID/DelID'])
p('C22','A listener yields one working end per client',
 'Each accept on a listener returns exactly one distinct end, connected to exactly one client, with that client\'s identity; a client that fails its handshake produces an error for at most one accept and does not affect other clients or later accepts (a server that has only one accept call pending serves clients one after another, so a silent one delays the next until its handshake times out); closing the listener makes pending accepts return.',
 ['schedules','fault_sequences'],'all bounded-deviation interleavings of 2 concurrent accepts with 2-3 clients, one possibly failing its handshake, and close of the listener',
 'TestServer accepts sequentially from well-behaved clients.',
 ['server/server.go','server/end.go'],
 [('accept loop','server/server.go AcceptEnd')],
 obs=['server.Listen','server.Listener.AcceptEnd/Accept/Close'])
p('C23','A closed end leaves nothing running',
 'After an end is closed (by either side or by connection loss) and its peer has gone, and its owner has called Close on it, every goroutine it started finishes (the contexts it gave its handlers end), every timer it armed is gone, the underlying connection is closed and a timer it was lent is left running for its owner. A constructor that fails leaves nothing running either.',
 ['schedules','fault_sequences'],'all bounded-deviation interleavings of close/connection loss with every layer\'s background activity; failing handshakes',
 'Nothing in the tests counts goroutines or timers.',
 ['conn/conn_client.go','conn/conn_server.go','multiplexer/dialogue.go','multiplexer/dialogue_mgr.go','application/stream.go','client/end.go','server/end.go'],
 [('fini cascade','conn/*.go fini; multiplexer/*.go fini; application/*.go fini'),('timer ownership','client/end.go new; server/end.go new')],
 obs=['goroutines, timers and net.Conn.Close observed by the controlled scheduler'])
p('C24','The connection and multiplexer layers keep their promises by themselves',
 'Used directly, without an end, a connection hands every packet written on one side to the reader of the other exactly once and in order, including everything accepted before a close; once it is closed or lost, reads and the read channel end and writes fail. A multiplexer opens, accepts, lists and finds dialogues under their identifiers, keeps the packets of different dialogues apart and in order, and reports the end of each dialogue at most once (exactly once while the multiplexer is open); after its own end every blocked or later open, accept, read and closed-wait returns with an error and nothing is left listed or running. A packet accepted by a server connection with a failed-packet channel is either written to the network or given to that channel, once.',
 ['schedules','fault_sequences'],'all bounded-deviation interleavings of writers, readers, openers and accepters with closes, connection loss, a failing write and a peer which reads nothing, with and without buffers',
 'The unit tests of these layers check one order of events with a well-behaved peer.',
 ['conn/conn_base.go','conn/conn_client.go','conn/conn_server.go','multiplexer/dialogue.go','multiplexer/dialogue_mgr.go'],
 [('read/write/fini','conn/conn_base.go Read/Write; conn/*.go fini'),('dialogue tables','multiplexer/dialogue_mgr.go OpenDialogue/AcceptDialogue/ClosedDialogue/GetDialogue'),('failed packets','conn/conn_base.go dowritePkt; conn/conn_server.go fini')],
 obs=['conn.NewClientConn/NewServerConn','conn.Conn.Read/Write/ChannelRead/Close','multiplexer.NewDialogueMgr','multiplexer.Dialogue.Read/Write/WriteWait/Close'])

p('C25','Options take effect however they are given, and only for what they were given to',
 'Every option given to a client end, retrying end, server end, listener or to a single operation (meta, client ID, delegate, timer, logger, packet factory, local and awaited methods, accept and closed functions, buffer sizes; timeouts; custom bytes, topic, consistency; stream meta and peer; hijack pattern) takes effect, whether the options come in one structure or several, in whatever order, between empty structures or nil, alone or along with any of the others; where a value is given more than once the last one counts and the earlier ones are not used at all; an option not given leaves its default. Option structures are only read: ends made from the same structures are independent of each other. A retrying end applies its options to each of its connections. (The remote-method check is a plain flag: the last structure decides.)',
 ['inputs','histories'],'each option alone, all but one, all and none x seven ways to spread them over structures x each constructor, on connected ends whose behaviour is then observed; two ends made from the same structures, at once or in turn, under all bounded-deviation interleavings',
 'No test gives more than one structure or more than a few options, and the combinations decide.',
 ['client/end_options.go','server/end_options.go','options','client/end.go','client/end_retry.go','server/end.go','server/server.go','conn/conn_server.go','application/message.go'],
 [('merging','client/end_options.go, server/end_options.go MergeEndOptions; options/*.go Merge*'),('passing on','client/end.go, server/end.go new; conn Option*; multiplexer Option*; application Option*')],
 obs=['client.NewEnd*/NewRetryEndWithDialer','server.NewEndWithConn/Listen','Call/CallAsync/Publish/PublishAsync/NewRequest/NewMessage/OpenStream/Hijack options'])
p('C26','The context a handler is given ends with the call, and not before',
 'The context of an RPC handler (registered or hijacking, on either side, on ends, streams and retrying ends) carries the earlier of the timeout and the context deadline of the call, and no deadline when the call has none. It stays open while the handler runs and the caller waits on a living stream; it ends, and stays ended, at that deadline (deadline exceeded), when the caller cancels the call, when the handler has returned, and when the stream, the end or the connection goes away - so that a handler, or what it left behind, that waits for it always gets on. The contexts of different calls are independent of each other.',
 ['schedules','histories','fault_sequences'],'every combination of caller, limit, blocking or asynchronous call, handler kind and ending (answer, cancellation, limit, close by either side, loss), next to other calls, under all bounded-deviation interleavings',
 'No test looks at the context of a handler.',
 ['application/stream.go','application/rpc.go'],
 [('context of the handler','application/stream.go handleInRequestPacket/doRPC/handleInRequestCancelPacket/fini'),('cancellation','application/rpc.go cancelRequest, CallAsync')],
 obs=['geminio.RPC and geminio.HijackRPC context argument','Call/CallAsync'])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
for x in P:
    assert len(x['title'])<=80,x['id']
print(len(P))
