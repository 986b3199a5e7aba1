RCV = 'cli/receiver/'
STO = [RCV + 'storage/store.go', RCV + 'storage/default.go']
CON = [RCV + 'storage/store/%s' % x for x in ('rabbitmq/connector.go', 'postgresql/connector.go', 'nats/connector.go', 'tarantool_queue/connector.go', 'redis/connector.go', 'mysql/connector.go')]
GEN = 'cli/packet-gen/main.go'
CONNECTION = ['bytes written to the connection', 'documents given to the stores']

P('C15', 'Stored records carry the values that were sent',
  'For every record with a position the receiver stores one document whose time, latitude and longitude (negative in the south and west), speed, course 0..359, satellites, navigation system and dilutions of precision, analog sensors and liquid levels (millimetres, or litres as ten times the sent number of decalitres) are those sent in the same record. The packet identifier stored is the packet number, or the number given by counters 110 (low three bytes) and 111 (high byte) of the record, and every other subrecord leaves the document unchanged; the order of the subrecords does not matter.',
  ['inputs'], 'every value, presence combination and order of the subrecords of a record', 'The one server test stores one fixed packet; sign bits, the ninth bit of the course, the order of counters and rarely present sensors are never exercised.',
  [SRV, RCV + 'storage/packet.go'] + SUB, [('record to document', RCV + 'server/server.go:handleConn'), ('document', RCV + 'storage/packet.go:NavRecord')],
  'One packet with one record: the position with every value, all combinations of extended position, all 256 analog sensor combinations, up to three liquid sensors, and a position between any two (thorough: three) of 11 other kinds of subrecords. Records without several positions.', CONNECTION)
P('C16', "Every data packet is answered by one response with each record's true outcome",
  'A packet with application data is answered with exactly one response that names the packet, reports result 0 and confirms every record of the packet once, in order, with status 0 when its position was stored or it had none and a non-zero status when a store failed; the answer follows the attempt to store. After a terminal identity or authentication data one successful result code packet is sent besides; response packets are not answered.',
  ['inputs', 'fault_sequences', 'histories'], 'every packet, record kind, outcome of saving and sequence of packets', 'The server test looks at the reply to one good packet; a failed save, several records, or a second packet on the connection are not tested.',
  [SRV], [('reply assembly', RCV + 'server/server.go:createPtResponse, createSrResultCode'), ('record loop', RCV + 'server/server.go:handleConn')],
  '0..2 records of 10 kinds per packet (thorough 3), 4..40 records without position, sequences of 2 packets (thorough 3), every combination of failing saves. Application data containing record confirmations, and the packet number of the replies, are not claimed.', CONNECTION)
P('C17', 'A rejected packet is answered with its result code and has no other effect',
  'A packet with a wrong header checksum, wrong data checksum, unknown type, wrong header length or undecodable data is answered with one response that names it and carries code 137, 138, 133, 131 or 129 without confirmations (an encrypted one gets any non-zero code), and none of its records is stored. Packets before and after it on the connection are handled as if it were not there.',
  ['inputs', 'histories'], 'every malformed packet, every pair of good packets around it', 'No test sends the server a malformed packet.',
  [SRV] + PKG, [('error branch', RCV + 'server/server.go:handleConn')],
  '8 kinds of malformed packets with every wrong value, between packets of 5 kinds (quick: equal kinds before and after). A record header without data is accepted and excluded.', CONNECTION)
P('C18', 'Packets are framed correctly however the network splits or joins them',
  'However a stream of packets is cut into pieces, from single bytes to several packets at once, and whatever the size of each packet up to the protocol maximum, every packet is handled exactly once and in order. A packet that is not received completely is neither answered nor stored, and a connection whose next packet does not start with protocol version 1 is closed without answer.',
  ['inputs', 'schedules'], 'every segmentation of the stream, every packet size', 'Tests write one packet in one piece over the loopback.',
  [SRV], [('header and body reads', RCV + 'server/server.go:handleConn')],
  'Two packets cut at every place and at every pair of places, in equal pieces of every size; 1..3 packets without data among others; sizes 255..5000 (thorough to 65535); a stream ending at every place.', CONNECTION)
P('C19', 'Connections do not affect each other',
  'Whatever other terminals do on their connections, each terminal gets exactly the replies to its own packets, and its records are stored with its own identity and values. This holds for connections one after another, for one that starts and ends while another is waiting for its peer or its store, and for connections served at the same time: their handlers share no memory that one of them writes, unless locked.',
  ['schedules', 'histories'], 'every point at which another connection runs', 'The server test uses one connection; shared state between handlers shows only with particular interleavings.',
  [SRV], [('per-connection state', RCV + 'server/server.go:handleConn')],
  'Two connections of three kinds of terminals; the second runs from start to end at any read, write or save of the first. Handlers with one packet of two records of 10 kinds each have no conflicting access to shared memory, locks aside. With locked shared state, interleavings that alternate more than once are outside.', CONNECTION)
P('C20', 'No peer and no fault can crash or wedge the receiver',
  'Whatever bytes a peer sends, and whenever the connection ends, fails or times out or a reply or a save fails, the connection handler returns without a crash and closes the connection. After a well-framed packet with arbitrary contents it still stores the next good packet; without a store nothing is confirmed.',
  ['inputs', 'fault_sequences'], 'every byte stream and fault', 'No test sends arbitrary bytes or injects faults; one panic in a handler ends the whole receiver.',
  [SRV] + PKG + REC + SUB, [('connection handler', RCV + 'server/server.go:handleConn'), ('decoders', L + '*.go')],
  'Streams of 0..16 arbitrary bytes, framed data of 0..14 arbitrary bytes, any subrecord of 0..12 arbitrary bytes, arbitrary headers; every reply failing, every combination of two failing saves.', CONNECTION)
P('C21', 'A silent connection is closed after the configured time',
  'Whenever the receiver waits for a packet it does so with a read deadline no later and no earlier than the configured time to live from then, renewed for every packet, good or not. When the deadline passes the connection is closed.',
  ['histories', 'inputs'], 'every history of packets before the silence', 'No test waits for the timeout.',
  [SRV], [('read deadline', RCV + 'server/server.go:handleConn')],
  '0..2 packets (thorough 3) of 3 kinds arriving whole or in pieces, three times to live; the clock is symbolic and monotone. A peer that closes its side is not covered.', ['deadline set on the connection', 'state of the connection'])
P('C22', 'A record reaches every configured store',
  'Saving a record gives it unchanged to every configured store exactly once, even when other stores fail. An error is reported exactly when some store failed. This holds for records saved at the same time too: two saves share no memory that one of them writes, unless locked.',
  ['inputs', 'fault_sequences', 'schedules'], 'every number of stores and every combination of failures', 'No test uses more than one store or a failing one.',
  STO[:1], [('fan-out', RCV + 'storage/store.go:Repository.Save')],
  '0..3 stores (thorough 4), 1..2 messages of 0..3 bytes, every combination of failures; two saves at the same time have no conflicting access to shared memory, locks aside.', ['messages received by each store', 'error returned'])
P('C23', 'Each backend delivers the serialised record where it is configured',
  'With a complete configuration every backend connects with the configured parameters and delivers each record exactly once, byte for byte as serialised, to the configured exchange and key, table, topic or queue, and reports failure exactly when the backend did. A record that cannot be serialised is reported and not sent; a connection that cannot be set up and missing or malformed required numbers are reported. Records may be saved at the same time: two saves share no memory of the backend that one of them writes, unless locked.',
  ['inputs', 'fault_sequences', 'schedules'], 'every configuration, message and backend failure', 'The backends have no tests, and tests against real servers would not exercise their failures.',
  CON, [('Init and Save of the connectors', RCV + 'storage/store/*/connector.go')],
  'The client libraries are replaced by recording stand-ins; configured names of 0..3 letters, messages of 0..3 bytes, every failing stage; users and passwords of 1..3 printable characters; two saves at the same time have no conflicting access to the connector, locks aside (handles of the client libraries may be shared, as documented). Reconnection and the real servers are outside.', ['calls of the client libraries', 'errors returned'])
P('C24', 'Configured stores are loaded, wrong ones refused',
  'Loading the storage configuration sets up exactly one backend of the named kind per entry, each with its own parameters, and a record saved then reaches each of them. No entry, an unknown name or a backend that cannot be set up is reported as an error, and a backend that could not be set up receives nothing.',
  ['inputs'], 'every set of backends and every unknown name', 'No test loads a storage configuration.',
  [RCV + 'storage/store.go'], [('loader', RCV + 'storage/store.go:Repository.LoadStorages')],
  'All 63 sets of the 6 backends, unknown names of 1..5 letters alone or beside any backend, any failing backend alone or beside another; stand-ins as in C23.', ['calls of the client libraries', 'error returned'])
P('C25', 'The serialised record says what the record says',
  'Serialising a record never fails and yields JSON in which every field, including each analog and liquid sensor in order, appears under its documented name with its exact value.',
  ['inputs'], 'every value of every field', 'No test looks at the serialised record; a renamed key or a narrowed type breaks every consumer.',
  [RCV + 'storage/packet.go'], [('JSON form', RCV + 'storage/packet.go:NavRecord.ToBytes')],
  'Every value of the fixed fields (coordinates: multiples of 1/1024 degree), 0..3 or 40 analog and 0..2 or 20 liquid sensors. encoding/json itself is modelled by the field tags and types it is given.', ['bytes returned by ToBytes'])
P('C26', 'packet-gen sends what it is asked to and judges the answer',
  'packet-gen sends, to the given server, exactly one packet with the given packet and object identifiers, time, position (in any hemisphere) and liquid level, in the standard layout with correct lengths and checksums. It exits with success exactly when a response to that packet arrives, whole or in pieces, within the given time (five seconds by default) with result 0 and no record status other than 0; without its required options or a connection it fails, without them also sending nothing.',
  ['inputs', 'schedules', 'fault_sequences'], 'every option value, answer, segmentation and failure', 'packet-gen has no tests.',
  [GEN], [('packet assembly and answer handling', 'cli/packet-gen/main.go:main')],
  'main() runs with stand-ins for net, flag, os.Exit and log. Packet identifiers 1..65535, positions that are multiples of 2^-22 degrees, 6 times and every second of a minute, answers with 0..3 confirmations in one piece or two, 0..15 bytes of junk.', ['exit status', 'bytes written to the connection'])
P('C27', 'Every position is attributed to the right terminal',
  'A stored position carries the object identifier of its own record or, when the record has none, the identifier most recently given on the connection by an earlier record or by a terminal identity in an earlier record or in its own, across records and packets.',
  ['histories', 'inputs'], 'every sequence of records with and without identifiers', 'The server test sends one record that carries its identifier.',
  [SRV], [('client identity', RCV + 'server/server.go:handleConn')],
  '1 packet of 1..2 records and 2 packets of one record (thorough: 2 packets of 1..2, 4 of one) of 5 kinds, every identifier.', CONNECTION)
P('C28', 'Settings mean what they say',
  'The listening address is the configured host and port, the time to live is the configured number of seconds, and the log level names DEBUG, INFO, WARN and ERROR select those levels while any other text selects the default.',
  ['inputs'], 'every host, port, number of seconds and text', 'The config test loads one file and compares one level.',
  [RCV + 'config/config.go'], [('accessors', RCV + 'config/config.go:Settings')],
  'Hosts and levels of 0..6 bytes, ports of 0..5 bytes, 0..1e9 seconds. Reading and parsing the file is not covered.', ['return values of the accessors'])

P('C29', 'The receiver serves every accepted connection until it is stopped',
  'A running receiver listens once, on the configured address, and serves every connection it accepts, each without keeping others from being accepted, even when accepting others fails. Stopping it closes the listener and ends it; nothing else does.',
  ['schedules', 'fault_sequences', 'histories'], 'every sequence of successful and failing accepts, connections served early or late', 'The server test accepts one connection and never stops the server.',
  [SRV], [('accept loop', RCV + 'server/server.go:Run'), ('stop', RCV + 'server/server.go:Stop')],
  '0..4 accepts (thorough 6), each a connection with one packet or a failure; handlers run at once or only when the next accept after all of them waits. The net package is replaced by a stand-in; preemption inside handlers is outside.', ['calls of the listener', 'bytes written to the connections'])
P('C30', 'The receiver runs as its configuration says',
  'Started with a configuration file the receiver listens on its host and port, logs at its level, waits for peers no longer than its time to live, and confirms and delivers a position to each of its stores exactly once; when there is no storage section or a store cannot be set up the position is printed to the log instead (when its level is INFO or DEBUG). Without -c, with an unreadable or malformed file or an address that cannot be listened on it exits with failure.',
  ['inputs', 'fault_sequences'], 'every port, level, time to live, storage section and failure', 'No test starts the program; each part is tested alone or not at all.',
  [RCV + 'main.go', RCV + 'config/config.go', STO[1], SRV], [('start-up', RCV + 'main.go:main'), ('printing store', RCV + 'storage/default.go:LogConnector')],
  'main() runs with stand-ins for flag, os, net, the YAML library, logrus and the client libraries; ports of 1..3 characters, 4 levels, 0..100000 s, 7 storage sections, one terminal with one position.', ['calls of the listener', 'log lines', 'calls of the client libraries'])

P('C31', 'The JSON form of a packet says what the packet says',
  'Package.ToBytes never fails on a packet with decodable contents and yields JSON in which every header, record, response and subrecord field other than those of EGTS+ data appears under its abbreviation (SensorNumber and Value for absolute analog sensors) with its exact value, texts being valid UTF-8 and times RFC 3339. Records and subrecords keep their number and order.',
  ['inputs'], 'every value of every field', 'No test serialises a packet; a renamed key, a dropped field or a narrowed type breaks every consumer.',
  [L + 'egts_pkg.go', L + 'egts_sr_*.go'], [('JSON form', L + 'egts_pkg.go:Package.ToBytes')],
  'Every value of the header, record and subrecord fields (coordinates: multiples of 1/65536 degree; texts of 3 and flags of 1 ASCII characters), 0..2 records of 0..2 subrecords, one subrecord of each of 14 kinds. encoding/json itself is modelled by the field tags and types it is given.', ['bytes returned by ToBytes'])
P('C32', 'Encoding and decoding of different packets do not influence each other',
  'Decoding does not change the bytes it is given, and a decoded packet stays as it is when those bytes are reused. Encoding a packet again gives the same bytes, and bytes returned earlier stay as they are. What a packet decodes or encodes to does not depend on the packets, good or malformed, handled before it, and packets can be decoded, encoded and serialised by several goroutines at the same time without a data race.',
  ['histories', 'schedules', 'inputs'], 'every order and interleaving of calls on every packet', 'Every test handles one packet in one goroutine.',
  [L + 'egts_pkg.go', L + 'service_data_records.go', L + 'record_data.go', L + 'crc.go'], [('codec', L + 'egts_pkg.go:Package.Decode'), ('codec', L + 'egts_pkg.go:Package.Encode')],
  '18 kinds of packets (a record with a subrecord of each of 14 kinds, responses, no data, two records) with every value: each alone, every pair in sequence and in parallel, each after data of 0..10 (thorough 13) arbitrary bytes. Interleavings are decided by showing that no two calls touch the same package-level memory, one of them writing, without a lock.', ['bytes returned by Encode', 'accesses to shared memory'])
P('N01', 'The configuration file is read as written',
  'Loading a well-formed configuration file yields the settings and storage parameters written in it; an unreadable or malformed file is reported.',
  ['inputs'], 'every configuration file', 'One sample file is tested.', [RCV + 'config/config.go'], [('loader', RCV + 'config/config.go:New')], '', ['return values'])
P('N03', 'EGTS+ data survive encoding and decoding',
  'Encoding and then decoding an EGTS+ subrecord returns the same values; malformed payloads are refused without a crash.',
  ['inputs'], 'every payload', 'One sample is tested.', [L + 'egts_sr_egtsplus_data.go'], [('protobuf payload', L + 'egts_sr_egtsplus_data.go')], '', None)
NA = [
 ('N01', 'The work is done by the YAML library through reflection and by the file system; its scanner and reflection-driven decoder cannot be encoded within reach, and a stand-in for them would leave nothing of the property.'),
 ('N03', 'The payload is encoded and decoded by the protobuf runtime through unsafe pointers and reflection, which the engine cannot encode.'),
]
