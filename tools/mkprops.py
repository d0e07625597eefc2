import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Primitive values survive an encode/decode round trip",
"For every protocol primitive (bool, int8/16/32/64, array length, string, nullable string, byte array, int32/int64/string arrays, varint, var-length bytes, var-length string) and every value it can represent, including null and empty ones and strings that are not valid UTF-8, decoding the encoded bytes returns an equal value. The decode consumes exactly the bytes that were written, so whatever was encoded next is decoded next. Null stays distinguishable from empty wherever the API can express null (nullable strings and int32/int64/string arrays).",
["inputs"],"All values of each primitive type; strings and byte arrays of any content and any representable length; any primitive encoded after it.",
"The tests round-trip two or three hand-picked values per primitive (and the 'nil' nullable-string case is a copy of the 'blank' one); they cannot cover all 2^64 integers, all lengths or all byte contents.",
["message/encoder.go","message/decoder.go"],[("Encoder.Put*","message/encoder.go"),("Decoder primitive readers","message/decoder.go")],
["bytes written to the encoder's target","value and error returned by the decoder"])
p("C02","Primitives use Kafka's wire representation",
"Every primitive is written exactly as the Kafka protocol prescribes: two's-complement big-endian integers, one-byte booleans, int16-length strings with -1 for null, int32-length byte arrays and arrays with -1 for a null array, and zig-zag base-128 varints with varint-length bytes and strings. A string too long for its int16 length prefix is never written with a wrong length: the encoder reports an error instead.",
["inputs"],"All values of each primitive type, string lengths beyond 32767 included.",
"Existing tests only compare the encoder with the decoder of the same package, so a mistake made consistently on both sides, or a length overflow, goes unseen.",
["message/encoder.go"],[("Encoder.Put*","message/encoder.go")],["bytes written to the encoder's target","error returned by Flush"])
p("C03","Declared primitive sizes equal the bytes written",
"For every primitive and every value, the size the library computes for it is exactly the number of bytes the encoder writes for it.",
["inputs"],"All values and lengths of every primitive that has a size function.",
"sizeof_test.go compares a few constants; no test relates a size to what the encoder writes.",
["message/sizeof/sizeof.go","message/encoder.go"],[("sizeof.*","message/sizeof/sizeof.go")],["return value of the size functions","length of encoder output"])
p("C04","A message's declared size equals its encoded length",
"For every protocol message (all requests, responses, headers and the structures nested in them) and every version in its supported range, the declared size is exactly the number of bytes that encoding it in that version writes, whatever its field values and array lengths are.",
["inputs","configurations"],"Every message type, every supported version, all field values, array shapes within the stated bound.",
"No test encodes, sizes or decodes any message in messages.gen.go; a wrong size desynchronises the whole connection.",
["message/messages.gen.go","message/sizeof/sizeof.go","message/encoder.go"],[("Size(version)","message/messages.gen.go"),("Encode(e, version)","message/messages.gen.go")],["Size result","length of encoder output"])
p("C05","Every message round-trips in every version",
"For every protocol message and supported version, decoding an encoded message returns, without error and consuming exactly its bytes, a message equal to the original in every field that exists in that version (an absent array of structures may come back empty), and leaves fields that do not exist in that version at their zero value.",
["inputs","configurations"],"Every message type, every supported version, all field values, array shapes within the stated bound, arbitrary trailing bytes.",
"No test touches the 218 generated message types or their version gates.",
["message/messages.gen.go","message/decoder.go","message/encoder.go"],[("Encode(e, version)","message/messages.gen.go"),("Decode(d, version)","message/messages.gen.go")],["decoded message","decoder position"])
p("C06","Messages have the field layout Kafka defines per version",
"For every protocol message and every supported version, the encoded bytes are the fields Kafka defines for that version, in Kafka's order and with Kafka's types: no field missing, added, reordered, retyped or gated on the wrong version.",
["inputs","configurations"],"Every message type, every supported version, all field values, array shapes within the stated bound.",
"No broker is available to the tests and nothing in the repository states the layout independently; a change made consistently to size, encode and decode passes any self-consistency test and breaks interoperability.",
["message/messages.gen.go"],[("version gates in Size/Encode/Decode","message/messages.gen.go")],["encoder output"])
p("C07","Decoding arbitrary bytes is safe",
"Decoding any primitive or message, in any version, from any byte sequence never panics, never consumes or returns bytes beyond the length the decoder was given, and never allocates more than in proportion to that length. It ends with a value or an error.",
["inputs"],"All byte contents, all declared lengths up to the buffer's size, any reader position, every message type and version.",
"Tests decode only bytes the encoder produced, plus an empty buffer; hostile lengths (negative, huge, overlong varints) are never fed in.",
["message/decoder.go","message/messages.gen.go"],[("Decoder.remains","message/decoder.go"),("array-length handling","message/decoder.go, message/messages.gen.go")],["panics","decoder position","returned values","allocation sizes"],
[("offset/length","reader position within the declared length","message/decoder.go Decoder")])
p("C08","Truncated input is reported as insufficient data",
"If the bytes of a valid encoding of any primitive or message are cut short at any point, decoding fails with an error that IsInsufficientDataError recognises; it never reports success and never panics.",
["inputs","crash_points"],"Every primitive and message type and version, every cut position, all field values.",
"TestDecoder_remain only covers an empty decoder.",
["message/decoder.go","message/messages.gen.go"],[("Decoder.remains","message/decoder.go"),("error propagation in Decode","message/messages.gen.go"),("IsInsufficientDataError","message/decoder.go")],["error returned by Decode"])
p("C09","Encoder write failures are sticky and reported",
"Whichever write to the underlying writer fails first, the encoder writes nothing more after it, and Flush reports that error from then on; the bytes written before it are a prefix of the correct encoding. A failure of the underlying flush is returned by Flush.",
["fault_sequences","inputs"],"Every primitive and sequence of primitives, every index of the first failing write, flush failure or not.",
"TestEncoder_err only starts from an encoder that has already failed; no test makes a write fail part-way.",
["message/encoder.go"],[("Encoder.err","message/encoder.go"),("Encoder.Flush","message/encoder.go")],["calls on the underlying writer","result of Flush"],[("err","first write error","message/encoder.go Encoder")])
p("C10","The ring buffer delivers exactly the bytes written, in order",
"With one writer and one reader running concurrently, whatever the buffer size, the chunk sizes and the scheduling, the bytes a reader obtains are exactly the bytes written, in order: none lost, repeated, reordered, overwritten before being read, or read before being written. Bytes outside the requested range of the caller's slices are not touched.",
["schedules","inputs"],"All interleavings of one reader and one writer at memory-operation granularity, all byte values, symbolic start position, chunk sizes and capacities within the stated bounds.",
"TestStress and Test_newRingBuffer run one schedule per execution with fixed chunk sizes, and the latter checks no content.",
["ring/buffer.go"],[("start/next indices published with atomics","ring/buffer.go"),("Wait/Release hand-off","ring/buffer.go")],["bytes returned by ReadN"],[("start","next unread position","ring/buffer.go"),("next","next write position","ring/buffer.go")])
p("C11","The ring buffer never strands a reader or writer",
"Under every schedule, a reader whose bytes have all been written returns, and a writer for whose bytes there is or will be space returns: no wake-up is lost. After Close, every pending and later read and write that would have to wait returns.",
["schedules","histories"],"All interleavings of one reader, one writer and a closer, chunk sizes and capacities within the stated bounds.",
"A lost wake-up needs one particular interleaving between the emptiness check and the wait; tests sample schedules and keep the stream flowing, which masks it.",
["ring/buffer.go"],[("mutex.Wait/Release","ring/buffer.go"),("Buffer.Close","ring/buffer.go")],["return of ReadN, WriteN"])
p("C12","Each API uses the highest version both sides support",
"After connecting, each API call is made in the highest version contained in both the range the broker advertised for that API and the library's supported range for it. If the broker advertises, for an API the library knows, a range that has no version in common with the library's, connecting fails with an error; APIs the library does not know are ignored.",
["inputs","configurations"],"All 48 APIs, all int16 [min,max] ranges a broker can advertise, in any order, with unknown API keys mixed in.",
"No test exercises negotiation; the only test that would is an integration test against one broker version.",
["gen.broker.go","message/keys.go"],[("negotiateApiVersions, matchVersion","gen.broker.go"),("NewBroker","gen.broker.go")],["request header on the wire","error from NewBroker"])
p("C13","Each API call sends one well-formed request frame",
"Each of the 48 API calls writes exactly one frame: a 4-byte length equal to the number of bytes that follow, a header carrying that API's key, the negotiated version, a correlation id and the client id, and then the caller's request encoded in the negotiated version.",
["inputs","configurations"],"All 48 calls, all negotiable versions, all request contents within the stated shape bound.",
"No test runs any of the 48 generated methods without a live broker, and the integration test calls three of them.",
["gen.broker.go","gen.conn.go","message/keys.go","message/messages.gen.go"],[("Broker.<Api> encode closures","gen.broker.go"),("Conn.Do","gen.conn.go")],["bytes written to the connection"])
p("C14","Each API call returns the broker's response, decoded as sent",
"Each of the 48 API calls returns, without error, exactly the response the broker sent for it, decoded in the version the request was made in; if the response cannot be decoded the call returns an error.",
["inputs","configurations"],"All 48 calls, all negotiable versions, all response contents within the stated shape bound, truncated responses.",
"As for C13: the generated methods are not executed by the unit tests.",
["gen.broker.go","gen.conn.go","message/messages.gen.go"],[("Broker.<Api> decode closures","gen.broker.go"),("Conn.messageLoop","gen.conn.go")],["value and error returned by the call"])
p("C15","Concurrent calls never mix up requests or responses",
"When several goroutines call on one connection at once, each caller receives the response that carries its own request's correlation id, whatever the scheduling and whatever order the broker answers in; responses with unknown correlation ids are ignored. Correlation ids in flight are distinct, and request frames are written whole, never interleaved.",
["schedules","histories"],"All interleavings of concurrent callers with the connection's goroutines, all response orders, within the stated bounds.",
"There are no unit tests of the connection at all, and scheduling cannot be enumerated by running it.",
["gen.conn.go"],[("Conn.Do: id, requests map, writeLock","gen.conn.go"),("Conn.messageLoop dispatch","gen.conn.go")],["value returned to each caller","bytes written to the connection"],[("requests","calls in flight by correlation id","gen.conn.go Conn")])
p("C16","Responses do not depend on how the stream is chunked",
"However the network splits or coalesces the broker's byte stream into reads, each call gets the same response: frames may be cut anywhere, including inside the length prefix, or arrive several to a read.",
["fault_sequences","schedules","inputs"],"All ways to cut a stream of response frames into reads within the stated bound.",
"No unit test reads from a connection; a local broker practically always delivers whole small frames.",
["gen.conn.go","ring/buffer.go"],[("readLoop, messageLoop","gen.conn.go"),("ReadN/WriteN","ring/buffer.go")],["value returned by each call"])
p("C17","No call outlives its connection",
"If the connection is closed, or is lost in any way at any point (end of stream, read error, write error, in the middle of a frame), every call in progress and every later call returns, with an error unless its response had arrived, and Close returns. No call hangs.",
["fault_sequences","schedules","crash_points"],"Every point of loss relative to the request and response streams, Close racing with calls, all interleavings within the stated bounds.",
"No unit test breaks a connection; hangs depend on where in the stream and in which interleaving the loss occurs.",
["gen.conn.go","ring/buffer.go"],[("Conn.Do waiting for its reply","gen.conn.go"),("Conn.Close, readLoop and messageLoop termination","gen.conn.go")],["return of each call and of Close"])
p("C18","A returned response is never altered by later traffic",
"Once a call has returned a response, no part of it, byte-array fields included, ever changes because of responses received later on the same connection.",
["histories","inputs"],"All pairs of successive responses with byte-array fields, within the stated bounds.",
"Needs two responses on one connection and a comparison of the first after the second; no test does that.",
["gen.conn.go","message/decoder.go"],[("per-response buffer in messageLoop","gen.conn.go"),("Decoder.Bytes","message/decoder.go")],["contents of returned responses"])
p("C19","No broker output can crash the client",
"Whatever bytes a broker sends, as frame length (negative, zero, smaller than a header, or larger than any buffer), header or body, no goroutine of the client panics and nothing is allocated without bound; the affected calls return a response or an error. A well-formed response larger than the client's internal buffers is still delivered intact.",
["inputs","fault_sequences"],"All 2^32 frame lengths, all header and body bytes within the stated bound, responses larger than the internal read buffer.",
"Tests never feed the connection malformed frames.",
["gen.conn.go","message/decoder.go","ring/buffer.go"],[("frame length handling in messageLoop","gen.conn.go")],["panics","result of calls"])
p("C20","Dialing the leader, controller or coordinator reaches the right node",
"Dialing a partition's leader, the controller or a group's coordinator connects to exactly the host and port that the cluster's answer gives for that node, for the topic, partition or group asked for. If the answer does not contain it (unknown topic, partition or node), an error is returned and no other node is dialled.",
["inputs"],"All metadata and coordinator answers within the stated bound: any brokers, topics, partitions, ids, hosts, ports, in any order.",
"Only reachable against a live cluster; the integration test has one broker, so every choice is right.",
["client.go"],[("dialNode, findTopic, findPartition, dialCoordinator","client.go")],["address dialled","error returned"])
p("C21","Bootstrap tries every address and reports total failure",
"A client operation that needs the cluster uses the first bootstrap address, in order, that accepts a connection, trying each further one only after the previous failed. If none is usable, including when the list is empty, the operation returns an error rather than an empty result.",
["fault_sequences","configurations"],"All bootstrap lists up to the stated length and all subsets of addresses failing to connect or to negotiate.",
"Only an integration test with a single healthy address exists.",
["client.go"],[("dialBootstrap","client.go")],["sequence of addresses dialled","error returned"])
p("C22","Client operations leave no connection behind",
"Every network connection opened on the user's behalf that is not handed to the user has been closed when the operation returns: bootstrap connections used for metadata or coordinator lookup, and connections whose version negotiation failed. A connection handed to the user is open, and closing it closes the network connection and ends its goroutines.",
["fault_sequences","inputs"],"All client operations, with success or failure at each step.",
"Leaks are invisible to functional tests; each leaked connection also keeps goroutines and megabytes of buffers.",
["client.go","gen.broker.go","gen.conn.go"],[("dialBootstrap","client.go"),("NewBroker","gen.broker.go"),("Conn.Close","gen.conn.go")],["open connections and live goroutines after the operation"])
p("C23","Connection options are honoured on every connection",
"A client, broker or connection configured with TLS only ever connects through TLS with that configuration, and one without TLS connects in plain TCP; a configured dialer is the one used, and a nil dialer means the default one. This holds for every connection opened, whatever the order of options, later options overriding earlier ones.",
["configurations"],"All sequences of options up to the stated length, for every operation that opens connections.",
"No unit test covers options.",
["gen.option.go","gen.conn.go","client.go","gen.broker.go"],[("buildConfig, With*","gen.option.go"),("dial","gen.conn.go")],["how the network is dialled"])
p("C24","A record batch's size and bytes agree and follow Kafka's format",
"For every record batch, the declared size is exactly the number of bytes encoding it writes, with or without keys, values and headers, and encoding never panics. The bytes are Kafka's record-batch (v2) layout: batch header, record count, and per record its own length, attributes, timestamp delta (in milliseconds) and offset delta, key and value (null, with length -1, if nil) and counted headers.",
["inputs"],"All field values, up to the stated numbers of records and headers and lengths of keys and values.",
"No test covers record batches.",
["gen.record_batch.go"],[("RecordBatch.Size/Encode, encodeMessage, sizeofMessage","gen.record_batch.go")],["Size result","encoder output"])
p("C25","Metadata asks for the topics given and returns the cluster's answer",
"Client.Metadata asks the cluster for exactly the topics it is given, without having them created if they do not exist, and returns the answer of the broker it asked as the broker sent it, in whatever version the broker supports. An answer that cannot be decoded is an error.",
["inputs"],"Any number of topics with any names, any answer, every version.",
"The only test of the client needs a running Kafka cluster and looks at one answer.",
["client.go"],[("Client.Metadata","client.go")],["requests the broker receives","value and error returned"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
