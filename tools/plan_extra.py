EXTRA={
 'C01':[('codec-api',(1,0),(2,0)),('codec-forms',(1,0),(2,0)),('codec-var',(1,0),(2,0)),('codec-msg',(1,0),(2,0))],
 'C02':[('codec-forms',(1,0),(2,0)),('codec-var',(1,0),(2,0)),('codec-msg',(1,0),(2,0))],
 'C03':[('codec-mut',(1,0),(2,0)),('codec-forms',(1,0),(2,0)),('codec-var',(1,0),(2,0)),('codec-msg',(1,0),(2,0))],
 'C04':[('codec-split',(1,0),(2,0)),('codec-mut',(1,0),(2,0))],
 'C05':[('hs-server',(1,0),(2,0))],
 'C06':[('hs-client',(1,0),(2,0))],
 'C21':[('idle',(1,0),(2,0))],
 'C22':[('hostile',(1,0),(2,0))],
 'C24':[('fields',(2,0),(3,0))],
 'C25':[('services',(2,0),(3,0))],
 'C26':[('cycles',(3,0),(4,0))],
}
TECH={
 'C26':'exhaustive exploration of sequences of peer frames and application calls on the real endpoint, each repeated up to 64 times on one connection, or on twelve connections that end in each possible way, with a meter of the memory held after each repetition',
 'C25':'exhaustive exploration of sequences of peer frames, application calls and readiness changes of the message, control and handler services on the real endpoint, compared with a twin run in which the same frames arrive only once the services are ready, and with a model of each handler\'s queue',
 'C24':'exhaustive enumeration of field values (all values of every field, pairs of fields), of sequences of builder calls and of the ways errors are reported, executed on the real endpoint and compared with a reference decoder',
 'C22':'exhaustive exploration of sequences of frames that no conformant peer would send, and of application calls, from eight states of the real endpoint, with monitors for panics, memory, work, output and effect',
 'C01':'exhaustive enumeration of values and of mutator-call sequences up to a bound, executed on the real encoder and compared with a reference model and reference decoder',
 'C02':'exhaustive enumeration of encodings (every constructor at every position of every type) up to a bound, executed on the real decoder and compared with a reference decoder',
 'C03':'exhaustive enumeration of corruptions, truncations, size and count fields and short inputs, executed on the real decoder with panic, stack and allocation monitors',
 'C04':'exhaustive enumeration of streams and of the ways to cut them into reads, executed on the real frame codecs and compared with a reference of frame boundaries',
 'C05':'exhaustive exploration of opening sequences (peer actions, groupings into reads, disconnects, pauses in virtual time, application steps) on the real server, compared step by step with a reference automaton',
 'C21':'exhaustive exploration, in virtual time on the real endpoint, of time-out values and of all timed sequences of peer traffic and application calls up to a length',
 'C06':'exhaustive exploration of server reactions (frames, groupings into reads, disconnects, pauses in virtual time) on the real client connector, compared step by step with a reference automaton',
}
_n=" Trusted: the reference codec, written from the specification (OASIS AMQP 1.0 parts 1-5), and the bounds: nothing is claimed about values, nestings or sequences outside what is enumerated."
NOTE={
 'C26':"Every sequence of the enumerated space is run on the real endpoint (server, client, router). Growth counts only when the bytes or blocks held grow at every doubling of the repetitions, for connections only beyond what an unused connection leaves in the in-memory transport. Trusted: the allocation meter (blocks of 12 KB and more, the transport's pages, are not counted); longer sequences are not covered.",
 'C25':"Every sequence of the enumerated space is run on the real endpoint (server and client, and a server with a router whose handlers are unbounded, take one call at a time or take their time to be created, or whose control service takes its time to let a link in). Trusted: the twin run as the meaning of 'as if it had arrived just then', the dispatcher of ntex-dispatcher, which decides when the transport is read, and the bound on the length of the sequences.",
 'C24':"Every case of the enumerated space is run on the real endpoint, in both roles where it matters; what is sent is decoded by the reference codec and compared field by field with what was asked, what is shown is compared with what the peer sent. Trusted: the reference codec, the table saying which setting belongs to which field, and the sample values of each type.",
 'C22':"All sequences over a fixed alphabet of about 230 frames and calls are run on the real endpoint, in both roles. Trusted: the choice of the alphabet and of the states the sequences start from; longer sequences are not covered.",
 'C01':"Every value of the enumerated spaces (all fields of all types over boundary values, sizes across every encoding-size boundary, all sequences of message calls up to the stated length) is encoded by the real code and read back by a reference decoder."+_n,
 'C02':"Every encoding of the enumerated spaces is decoded by the real code and compared with what the reference says it denotes."+_n,
 'C03':"Every input of the enumerated spaces is decoded by the real code in a worker process with a 2 MB stack, an allocation meter and a time limit."+_n,
 'C04':"Every stream and every partition of the enumerated spaces is fed to the real codecs."+_n,
 'C05':"Every case of the enumerated spaces is run on the real Server over an in-memory transport under virtual time; after every step what it sent, what the application saw and whether it ended is compared with the reference. Trusted: the reference automaton; nothing is claimed for longer sequences or other application policies.",
 'C21':"Every timed sequence of the enumerated space is run on the real endpoint with a virtual clock that stops at every timer, so that every gap between two frames is measured exactly. Trusted: the virtual clock; times between the grid points are not covered.",
 'C06':"Every case of the enumerated spaces is run on the real Connector over an in-memory transport under virtual time; after every step what it sent and reported is compared with the reference. Trusted: the reference automaton; nothing is claimed for longer sequences.",
}
NA={}
