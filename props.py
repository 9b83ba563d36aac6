"""The properties, in one place: tools/gen.py writes properties.jsonl and MANIFEST.json from here."""
P = []
def add(id, title, statement, over, qtext, why, files, mech, observe, note, outside=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe, note=note, outside=outside))

add("P01", "Bit-level codec reads and writes exactly the bits asked for",
    "Reading n bits from a bit reader returns the next n bits of the buffer, most significant first, and a bit writer stores the low n bits of the value at the current bit position so that reading them back yields the value. Byte-run and fixed-width (8/16/24/32-bit) accesses continue at the same position, in big-endian order. Asking for more bits or bytes than remain is refused, never served from beyond the buffer.",
    ["inputs", "histories"], "every buffer content, every width and every sequence of accesses within the bounds",
    "The two tests read and write one hand-made buffer with a few widths; a wrong mask or a carry at one bit offset only shows for particular widths, offsets and values.",
    ["src/io/sps_io_bits.cpp", "src/io/sps_io_bits.hpp"], [("bit cursor and per-width masks", "src/io/sps_io_bits.cpp")], ["BitContext read_bits/write_bits/acquire"],
    "all values of every field, widths up to 32/57 bits at every start offset 0-7, sequences of 2-3 fields")
add("P02", "Byte readers and writers keep the stream's bytes, however it is split",
    "A buffered reader over any transport returns exactly the bytes the transport delivered, in order, none lost, repeated or invented, however the transport splits them; integers are big-endian. A request is refused only when the stream has ended or the buffer cannot hold it, and a refused request loses nothing. Full reads, in-memory reads, line reads and writes obey the same rule and report how much they transferred.",
    ["inputs", "schedules", "fault_sequences"], "every byte content, every split of the transport's reads, every sequence of requests within the bounds",
    "The tests read one in-memory buffer in one piece; loss or duplication needs a short read at a particular point.",
    ["src/io/sps_io_bytes.cpp", "src/io/sps_io_socket.cpp", "src/io/sps_io_memory.cpp", "src/cache/sps_cache_buffer.cpp"],
    [("buffered acquire with optional rewind", "src/io/sps_io_bytes.cpp"), ("full reads over partial ones", "src/io/sps_io_socket.cpp")], ["BytesReader/BytesWriter/Socket/MemoryReaderWriter API"],
    "streams up to 6-7 bytes, buffers of 5 bytes, all splits, 2-3 requests of every kind; plus reads of several KiB in large pieces")
add("P03", "FLV muxing and demuxing are exact",
    "Every audio, video or metadata packet written to an FLV output becomes exactly one well-formed tag (type, size, 32-bit timestamp, codec flags, packet type, composition offset, payload, preceded by the previous tag's size), after the file header; filtered or unsupported packets leave no bytes. Reading a well-formed FLV stream yields for each tag one packet with the same kind, decode and presentation times, codec, key-frame flag and payload, however the bytes arrive. A truncated last tag is never delivered, and a write the transport refuses is reported.",
    ["inputs", "schedules"], "every packet sequence, timestamp, composition offset and payload content within the bounds, every split of the transport",
    "No test muxes or demuxes FLV.",
    ["src/avformat/sps_avformat_flvenc.cpp", "src/avformat/sps_avformat_flvdec.cpp", "src/avformat/sps_avformat_packet.cpp"],
    [("tag writer", "src/avformat/sps_avformat_flvenc.cpp"), ("tag parser", "src/avformat/sps_avformat_flvdec.cpp")], ["bytes written to the transport", "packets returned by the demuxer"],
    "2-3 tags, payloads of 1-3 symbolic bytes plus concrete large sizes, all 32-bit timestamps and 24-bit offsets; streams of up to 400 tags and 1.6 MB")
add("P04", "Hostile FLV input never reads outside the received bytes",
    "For any byte sequence a publisher sends, FLV parsing ends in a packet or an error: no crash, no endless loop, no read beyond what was received. A packet is delivered only for a complete tag and its payload is the tag's own bytes.",
    ["inputs"], "every byte sequence within the bounds, including tags that end exactly at the end of the receive buffer",
    "Tests feed no malformed FLV; the failing sizes are specific values of a length field.",
    ["src/avformat/sps_avformat_flvdec.cpp", "src/io/sps_io_bytes.cpp"], [("size checks before reading a tag", "src/avformat/sps_avformat_flvdec.cpp")], ["FlvDemuxer read_header/read_packet"],
    "40-56 arbitrary bytes, plus tiny tags at the very end of a full 1 MiB buffer")
add("P20", "A late viewer starts from headers and the latest key frame",
    "When a viewer joins a running stream it receives, in order, the latest metadata and the latest audio and video codec headers, followed by every packet since the most recent video key frame, and nothing older. Packets are handed on unmodified, however many the group holds.",
    ["histories", "inputs"], "every sequence of packets of every kind, and every join point, within the bounds",
    "No test drives the stream cache; a wrong order or a lost header needs a particular history of packets.",
    ["src/avformat/sps_avformat_cache.cpp", "src/module/stream/sps_stream_cache.cpp"], [("group-of-pictures cache", "src/avformat/sps_avformat_cache.cpp")], ["packets returned to a newly attached viewer"],
    "4-5 packets of any kind, joins at every point; plus groups of up to 1500 packets")
add("P21", "Every viewer of a stream gets every packet once, in order, independently",
    "After joining, each viewer receives every later packet of its stream exactly once and in order, whatever the other viewers do: joining, leaving, vanishing or not reading. A viewer waiting for data is woken by the next packet, and a stream is found under its own name only, and no longer once it is released.",
    ["histories", "schedules"], "every interleaving of publishing, joining, leaving, vanishing and reading within the bounds",
    "No test has two viewers; losing or doubling a packet needs a particular order of joins and departures.",
    ["src/avformat/sps_avformat_cache.cpp", "src/module/stream/sps_stream_cache.cpp", "src/cache/sps_cache.hpp"], [("fan-out to registered subscribers", "src/cache/sps_cache.hpp")], ["packets dumped by each client"],
    "5-6 events, 2 viewers, all orders; plus queues of up to 10000 undelivered packets and 300 viewers")
add("P22", "At most one publisher per stream; publishing and playing never disturb others",
    "A stream exists exactly while its one publisher feeds it: a second publisher of a live name is refused without disturbing the first, playing an absent stream is refused, and when the publisher goes the name becomes free again. Names are the host and the whole path without its extension, dots included. A viewer only ever receives packets of the stream it asked for, from one publisher, consecutive and complete; when its connection fails its session ends at once. Publishing over HTTP is accepted only on hosts configured as a source and for the format they allow.",
    ["schedules", "histories", "configurations"], "every interleaving, at blocking calls, of publishers and viewers of the same and of different names within the bounds",
    "Tests never run two sessions; the failures need a switch between sessions at a particular blocking call.",
    ["src/module/stream/sps_stream_handler.cpp", "src/module/stream/sps_stream.cpp", "src/module/stream/sps_stream_cache.cpp", "src/module/host/sps_host_module.cpp"],
    [("check and create of the stream entry", "src/module/stream/sps_stream_handler.cpp"), ("registry", "src/module/stream/sps_stream_cache.cpp")], ["bytes written to viewers", "result of each session", "registry lookups"],
    "3 sessions on 2 names, 2-3 tags each, 2-3 voluntary switches besides the forced ones; 150 streams at once")
add("P23", "An edge pulls each stream once and serves all its viewers from it",
    "When viewers ask an edge host for a stream, the server opens one pull of that path from the configured upstream, however many viewers ask and in whatever order, and all of them are served from it, consecutively and completely. If the upstream fails, refuses or serves an unknown format, the waiting viewers are refused at once and the server lives on. A stream somebody publishes under that name meanwhile is left to its publisher. However the pull ends, the stream is then gone, and a later viewer starts a new pull.",
    ["schedules", "fault_sequences"], "every interleaving, at blocking calls, of two or three viewers and the pull, and every failure kind of the upstream, within the bounds",
    "No test runs an edge host; double pulls and torn-down successors need a particular order of ends and arrivals.",
    ["src/module/stream/sps_stream_edge.cpp", "src/module/stream/sps_stream_handler.cpp"], [("registered pull task and its condition variable", "src/module/stream/sps_stream_edge.cpp")], ["upstream opens", "bytes written to viewers", "registry lookups"],
    "2 viewers on 2 names with 2-4 voluntary switches, 3 viewers of one name with 1-2, a publisher besides 1-2 viewers")
add("P24", "A late viewer of a raw transport stream starts decodable",
    "When a viewer joins a transport stream that is relayed unparsed, it receives the latest program association and program map packets followed by every media packet since the last payload unit start, in order and unmodified. A viewer already attached receives every packet.",
    ["histories"], "every sequence of table and media packets, with and without unit start, and every join point within the bounds",
    "No test drives the raw cache.",
    ["src/avformat/sps_avformat_cache.cpp", "src/avformat/sps_avformat_packet.cpp", "src/avformat/sps_avformat_tsdec.cpp"], [("raw packet cache", "src/avformat/sps_avformat_cache.cpp")], ["packets returned to viewers"],
    "5-7 packets of any kind")
add("P30", "Packet buffers keep their bytes",
    "A buffer holds exactly the bytes copied or appended to it, in order, and reports its size and remaining room correctly; a reserved head never overlaps the bytes. Appending never writes outside the buffer.",
    ["inputs", "histories"], "every content, head size and sequence of appends within the bounds",
    "The one cache test appends to one buffer without a head.",
    ["src/cache/sps_cache_buffer.cpp", "src/cache/sps_cache_buffer.hpp"], [("head/size arithmetic", "src/cache/sps_cache_buffer.hpp")], ["CharBuffer/AVBuffer API"],
    "buffers up to 6 bytes, all heads and appends")
add("P12", "HTTP heads are parsed exactly and malformed ones refused",
    "An HTTP request or response head ends at its first empty line: exactly the head's bytes are consumed, however they arrive, and what follows stays readable for the body or the next message. Method, target (also one that names scheme and host), host, status and every header are reported with the values sent, header names compare without regard to case, and the body framing (chunked when that is the last transfer coding, content length, none) follows from the headers. Malformed, incomplete or over-long heads end in an error; no input crashes the parser or is read beyond.",
    ["inputs", "schedules"], "every head of arbitrary bytes, and every well-formed head with arbitrary header values, within the bounds, in every split",
    "Tests parse a few fixed heads delivered in one piece.",
    ["src/module/http/sps_http_parser.cpp", "src/module/http/sps_http_parser.hpp", "src/module/http/sps_http_socket.cpp"],
    [("head framing and header table", "src/module/http/sps_http_parser.cpp")], ["HttpParser results", "bytes consumed from the transport"],
    "heads of 11-14 arbitrary bytes; well-formed heads with 1-2 headers of 2-3 arbitrary bytes; heads around the size limit; heads with many headers")
add("P13", "HTTP request bodies are read exactly, chunked or by length",
    "The body of an HTTP request is delivered byte for byte: up to Content-Length, or the concatenation of its chunks (hex sizes of either case, leading zeros, extensions), or to the end of the connection, however the bytes arrive and whatever read size is asked for. The end of the body is reported exactly when the announced length or the last chunk has arrived, and nothing beyond the body is consumed. A body cut short or with malformed chunks ends in an error, never in a clean end or invented bytes.",
    ["inputs", "schedules", "fault_sequences"], "every body content, length, chunking, cut point, read size and malformed chunk header within the bounds",
    "No test reads an HTTP body.",
    ["src/module/http/sps_http_socket.cpp", "src/module/http/sps_http_parser.cpp"], [("length and chunk accounting", "src/module/http/sps_http_socket.cpp")], ["HttpRequestSocket::read", "bytes consumed from the transport"],
    "bodies of 0-5 bytes plus lengths beyond 2 GiB; up to 2 chunks of 1-17 bytes; chunk headers of up to 6 arbitrary characters after runs of digits; plus bodies of many KiB in large pieces")
add("P14", "The HTTP client asks for what it was told and reads the answer exactly",
    "Opening an http URL dials the given address and sends one complete request head: the method, the target with its query, the host and the caller's headers. The response status is reported as received, and the body is delivered byte for byte under the same rules as a request body (length, chunked, until close), ending cleanly exactly at its announced end; answers that have no body (to HEAD, or with status 1xx, 204, 304) end at their head. Refused connections, failed sends and malformed or missing answers are errors, and no connection is leaked.",
    ["inputs", "schedules", "fault_sequences"], "every body, chunking, cut, read size, header value and failure of the connection within the bounds",
    "The only client tests need the network.",
    ["src/io/url/sps_io_url_http.cpp", "src/module/http/sps_http_socket.cpp", "src/module/http/sps_http_parser.cpp", "src/sys/st/io/sps_sys_st_io_tcp.cpp"],
    [("request writer and body reader", "src/io/url/sps_io_url_http.cpp")], ["bytes sent to the peer", "HttpUrlProtocol open/read results"],
    "as P13, plus five kinds of answer, refused connections and failed sends")
add("P16", "URLs are split into exactly their parts",
    "For every URL scheme://host[:port]/path[?query] the parser reports the scheme, host, port (the default one if none is given), path, extension (of the last path segment), query string and every query parameter as written, so that two requests name the same stream exactly when they name the same path. An invalid port or a URL without its parts is refused; no input crashes the parser.",
    ["inputs"], "every URL with arbitrary characters in each part within the bounds, and every short arbitrary string",
    "Tests parse a handful of URLs.",
    ["src/io/url/sps_io_url.cpp", "src/io/url/sps_io_url.hpp"], [("url splitting", "src/io/url/sps_io_url.cpp")], ["RequestUrl fields and get_param"],
    "ports of up to 5 digits, paths of 4-5 and queries of 5-6 arbitrary characters, arbitrary strings of 4-6; plus long paths and queries around a symbolic character")
add("P15", "HTTP responses are framed so the client sees exactly what was written",
    "Whatever status, headers, length and body writes a handler gives an HTTP response, the client receives one well-formed head with that status and those headers, framed in exactly one way (chunked, a content length, or until close), followed by exactly the bytes written, in order, and, for a chunked response, the final chunk once the response is ended. The head is sent once, before the body; a failed write of the connection is reported to the handler.",
    ["inputs", "histories", "fault_sequences"], "every combination of framing, header values, body bytes, write sizes and the write that fails within the bounds",
    "No test writes an HTTP response.",
    ["src/module/http/sps_http_socket.cpp", "src/module/http/sps_http_socket.hpp"], [("status line, header and chunk writer", "src/module/http/sps_http_socket.cpp")], ["bytes written to the transport"],
    "1-2 headers of arbitrary values, 2 body writes of several sizes with arbitrary bytes, failure at any write; plus bodies of many KiB")
add("P18", "The configuration file means what it says",
    "Every configuration of nested blocks and name/value options, with comments, blank lines and any spacing, is loaded so that each block has exactly the options written in it, with the values as written (words, integers, on/off), the last setting of a name holding, and every other option at its default; unknown options (also names that begin or end like known ones) are ignored, global hosts belong to every server. A malformed configuration (a missing semicolon, an unbalanced brace, text after the semicolon, a block name used as an option, a file that cannot be read to its end) is refused at start, and no text crashes the parser.",
    ["inputs", "configurations"], "every placement of comments and blank lines, every spacing style, every option value of arbitrary characters and every kind of malformed line at every place within the bounds; every short arbitrary text",
    "The one module test parses one fixed configuration; a value lost by a brace or a comment character depends on the exact text.",
    ["src/module/sps_module.cpp", "src/module/sps_module_opt.cpp", "src/module/host/sps_host_module.cpp", "src/module/server/sps_server_module.cpp", "src/module/http/sps_http_module.cpp", "src/module/host/sps_host_global_module.cpp", "src/module/upstream/sps_upstream_module.cpp"],
    [("line parser and block nesting", "src/module/sps_module.cpp"), ("typed option setters", "src/module/sps_module_opt.cpp")], ["settings of the created modules", "result of init_conf"],
    "one 22-line configuration with 15 places for comments or malformed lines, 5 spacing styles, 2-character values, integers of up to 5 digits, plus arbitrary texts of 3-5 bytes and configurations of many blocks")
add("P17", "An SRT stream id selects exactly the stream and direction it names",
    "The stream id an SRT caller sends (#!::key=value,...) yields the host and path its h value names (with or without the srt:// scheme), whatever other parameters stand before or after it and in whatever order; the caller plays exactly when m is request and publishes otherwise. A stream id that names no usable URL is refused, and no stream id, whatever its bytes, crashes the server. The connection is closed once it is let go.",
    ["inputs"], "every stream id with arbitrary host, path and parameter characters in every order within the bounds, and every short arbitrary byte string",
    "No test handles a stream id.",
    ["src/module/srt/sps_srt_server_handler.cpp", "src/io/url/sps_io_url.cpp"], [("stream id parser", "src/module/srt/sps_srt_server_handler.cpp")], ["request attached to the connection by SrtPrepareHandler"],
    "hosts of 2, paths of 2-5 and parameters of 1 arbitrary characters, six modes, two orders, arbitrary ids of 4-6 bytes; plus long ids; the SRT library is a stub")
add("P19", "Requests are served by the host block that names them",
    "A request's host name selects the block of exactly that name, else the wildcard block (*.rest) it falls under, else the default block (*), else none; blocks that are switched off are never selected. The TLS certificate for a name is its block's. A name configured twice on one port and a star elsewhere than in front of a dot are refused at start. Server blocks on the same TCP or the same UDP (SRT) port share one listener that knows the hosts of all of them; on different ports each knows only its own and the global ones.",
    ["inputs", "configurations"], "every host name, block name, order of registration, switched-off block and merge within the bounds",
    "Tests cover no routing; a wrong precedence needs a name that matches two blocks.",
    ["src/module/host/sps_host_module.cpp", "src/module/host/sps_host_router_handler.cpp", "src/module/server/sps_server_module.cpp", "src/module/http/sps_http_module.cpp"],
    [("router tables, lookup and merge", "src/module/host/sps_host_module.cpp"), ("servers sharing a port", "src/module/server/sps_server_module.cpp")], ["HostModulesRouter results", "answers of a started server"],
    "five blocks with 1-3 arbitrary name characters, queries of up to 5 characters, two servers on one or two ports; many hosts of fixed names")
add("P25", "An HTTP connection's requests are answered in order, each with its own answer",
    "The configured server listens on the configured port with the configured backlog and timeouts, and a port that cannot be had is an error. Every well-formed request on a connection gets one complete answer, in order: 404 for unknown or disabled hosts and absent streams, 403 for publishing where it is not allowed, the upstream's answer for proxied hosts. The connection stays usable for the next request unless the request was malformed, was refused as a publisher or left a body unread; then it is closed and nothing more is answered. Connections do not influence each other, a failed accept loses at most that connection, and every connection is closed in the end.",
    ["inputs", "schedules", "fault_sequences", "histories"], "every sequence of two to three requests of ten kinds, every upstream outcome, every interleaving of two connections at their blocking calls, and every failing accept within the bounds",
    "No test starts a server; losing the boundary between two requests needs a particular pair of them.",
    ["src/module/http/sps_http_server.cpp", "src/module/http/sps_http_phase_handler.cpp", "src/module/http/sps_http_socket.cpp", "src/module/http/sps_http_proxy_phase_handler.cpp", "src/module/http/sps_http_stream_phase_handler.cpp", "src/module/server/sps_server.cpp", "src/module/server/sps_server_module.cpp", "src/module/http/sps_http_module.cpp", "src/sys/st/io/sps_sys_st_io_tcp.cpp"],
    [("accept loop and connection life", "src/module/server/sps_server.cpp"), ("phase handlers", "src/module/http/sps_http_phase_handler.cpp"), ("request loop", "src/module/http/sps_http_server.cpp")], ["bytes sent to clients and upstreams", "connections opened and closed"],
    "1 connection with 2-3 requests of ten kinds and four upstream outcomes; 2 connections with 2 voluntary switches; the kernel's and the coroutine library's socket calls are stubs")
add("P26", "Files are read and written exactly",
    "A file opened by its URL (a path or file://path names that file) is read byte by byte as it is stored: reads, full reads and line reads return its bytes in order, none lost or repeated, say how many came, number the lines, and report the end once all of it has been read and not before. Opening a missing file fails unless it is opened to be created (truncated or appended to). A write replaces, appends to or overwrites exactly what the mode says, and a read or write that did not happen is an error, not a success.",
    ["inputs", "fault_sequences", "histories"], "every file content, every sequence of requests and sizes, every open mode and failing file within the bounds",
    "Tests open one existing configuration file; a wrong end or a lost write needs a particular size or a failing file.",
    ["src/io/url/sps_io_url_file.cpp", "src/io/sps_io_url.cpp", "src/io/sps_io.cpp"], [("file url protocol", "src/io/url/sps_io_url_file.cpp")], ["FileURLProtocol open/read/read_fully/read_line/write", "the file's content afterwards"],
    "files of up to 4-5 arbitrary bytes, 3-4 requests of every kind and size, every open mode, missing and failing files")
add("P27", "Logging never interprets what it logs",
    "A log line is the message with its arguments substituted once: text that comes from clients or configuration appears as it is, whatever its bytes (percent signs included), and never reads or writes outside the log's buffer. A line longer than the buffer is cut, not overrun.",
    ["inputs"], "every text of arbitrary bytes within the bounds, alone and after another line, and lines around the buffer's size",
    "Tests log fixed text only; the failure needs a percent sign in logged data.",
    ["src/log/sps_log.cpp", "src/log/sps_log.hpp"], [("line formatting", "src/log/sps_log.cpp")], ["text written to the console"],
    "texts of 0-5 arbitrary bytes; lines of 4000-6000 bytes; time is a stub, printf formatting a model in rt/")
add("P28", "A stream's format is chosen by its whole extension",
    "The demuxer of a published stream and the muxer of a played one are those registered for exactly the extension of its path, whatever the order of registration and the query string; an extension without a format gets none.",
    ["inputs", "configurations"], "every extension of arbitrary characters within the bounds, both registration orders",
    "No test selects a format.",
    ["src/avformat/sps_avformat_dec.cpp", "src/avformat/sps_avformat_enc.cpp", "src/io/url/sps_io_url.cpp"], [("format lookup", "src/avformat/sps_avformat_dec.cpp")], ["AVDemuxerFactory/AVEncoderFactory create"],
    "extensions of 0-4 arbitrary characters, the flv and ts formats")
add("P29", "The reverse proxy relays requests and answers exactly",
    "A proxied request reaches the configured upstream once, with its method, target (an empty query may lose its question mark), host (once) and headers. The client receives the upstream's status, headers, framing and body byte for byte, after which the connection carries the next request; answers without a body (HEAD, 204, 304) are complete without one. An answer the upstream cuts short is never completed towards the client, and all connections are closed when either side fails.",
    ["inputs", "schedules", "fault_sequences"], "every body content, framing, chunk boundary, cut, split of the upstream's bytes and failing client write within the bounds",
    "No test proxies anything.",
    ["src/module/http/sps_http_proxy_phase_handler.cpp", "src/io/url/sps_io_url_http.cpp", "src/module/http/sps_http_socket.cpp", "src/module/http/sps_http_parser.cpp"],
    [("copy loop and header relay", "src/module/http/sps_http_proxy_phase_handler.cpp")], ["bytes sent to client and upstream"],
    "bodies of 0-5 arbitrary bytes and sizes around the copy buffer (1023-2500), 4 methods, 7 statuses, 3 framings; request bodies are not relayed by sps (see DESIGN) and are outside")
add("P31", "The TCP transport reports exactly what the socket did",
    "A read returns the bytes that arrived, a full read all it was asked for or an error, and a write succeeds only if everything was handed over; end of stream, timeout, interruption and reset are told apart, whatever earlier calls left behind, and the configured timeouts are used. Connecting dials exactly the given address and port within the given time, and a failure at any step is an error that leaves nothing open; names are resolved. Listening succeeds exactly if the port could be taken, and every accepted client gets its own connection with its address, a failed accept none. A socket is closed exactly once, with its owner.",
    ["inputs", "fault_sequences", "histories"], "every content, split and outcome of the socket calls, every timeout and port, and every failing step of connecting, listening and accepting within the bounds",
    "The tests need a network.",
    ["src/sys/st/io/sps_sys_st_io_tcp.cpp", "src/sys/st/io/sps_sys_st_io_tcp.hpp", "src/io/sps_io_socket.cpp"], [("mapping of socket results", "src/sys/st/io/sps_sys_st_io_tcp.cpp")], ["results of StTcpSocket and st_tcp_connect", "socket calls made"],
    "up to 4 arbitrary bytes in any split, three reads, four outcomes; state-threads' socket calls are stubs")
add("P07", "Hostile RTP and RTCP datagrams never read outside what was received",
    "For any datagram (any header with any version, padding, extension and source count, any H.264, AAC or transport stream payload, any RTCP report), decoding ends in packets or an error: no crash, no endless loop, no access outside the datagram, and no delivered packet holds more than was received. A datagram its header (sources, extension) does not fit in is an error and yields nothing. The next well-formed datagram is decoded as usual.",
    ["inputs", "histories"], "every header byte, every payload and RTCP packet of the sizes within the bounds, also in the middle of a fragmented unit",
    "The tests decode a recorded stream of well-formed datagrams.",
    ["src/avformat/sps_avformat_rtp.cpp", "src/avformat/sps_avformat_rtpdec.cpp", "src/avformat/sps_avformat_rtpdec_h264_hevc.cpp", "src/avformat/sps_avformat_rtpdec_aac.cpp", "src/avformat/sps_avformat_rtpdec_rtcp.cpp", "src/avformat/sps_avformat_rtpdec_ts.cpp"],
    [("size checks before reading", "src/avformat/sps_avformat_rtp.cpp"), ("aggregation and fragment parsing", "src/avformat/sps_avformat_rtpdec_h264_hevc.cpp")], ["IRtpDecoder::decode of each decoder and the packets it yields"],
    "one hostile datagram (alone or after a first fragment) and a good one: 0-28 bytes with the first two bytes and the extension length/padding byte arbitrary; 0-8 (thorough 11) arbitrary payload bytes after a plain header; RTCP with up to 3 blocks, 10 arbitrary leading bytes, 8 sizes and every cut of the first 10 bytes")
add("P08", "H.264 over RTP: every received unit is delivered whole, once, in order",
    "Every H.264 unit received over RTP, alone in a datagram, aggregated (STAP-A/B, MTAP16/24) or in fragments (FU-A/B), is delivered exactly once, in order, with exactly its bytes, its key-frame flag and its presentation time (timestamp/90 ms), whatever the header holds (sources, extension, padding, marker, any dynamic payload type, sequence numbers wrapping). RTCP reports and stray short datagrams in between change nothing. If a datagram is lost, the units it carried (and only those) are missing; none is delivered with a hole, and a fragmented unit abandoned by the start of another is dropped. Units of up to 1 MiB arrive; a larger one is refused and the next unit arrives.",
    ["inputs", "fault_sequences", "histories"], "every sequence of packetisations, header form, timestamp, sequence number and single lost datagram within the bounds",
    "The tests decode one recording with single units and complete FU-A fragments and count packets.",
    ["src/avformat/sps_avformat_rtp.cpp", "src/avformat/sps_avformat_rtpdec.cpp", "src/avformat/sps_avformat_rtpdec_h264_hevc.cpp"],
    [("RTP header", "src/avformat/sps_avformat_rtp.cpp"), ("aggregation, fragments", "src/avformat/sps_avformat_rtpdec_h264_hevc.cpp")], ["packets returned by RtpDemuxer"],
    "2 (thorough 3) items of 8 packetisations in 6 header forms, 3 kinds of things in between, none or any one datagram lost, all timestamps, sequence numbers and dynamic payload types; units of 330 and 360 fragments",
    "decode times (the code uses the wall clock), reordered and repeated datagrams, parameter sets over RTP")
add("P09", "AAC and transport streams over RTP are delivered exactly",
    "Every AAC access unit of an RTP packet (RFC 3640, 13-bit sizes) becomes exactly one audio packet with its bytes and its time (timestamp/90), in order; a cut packet is an error and yields no unit that was not received whole. A transport stream over RTP (payload type 33, marker set or not) yields the units it carries, however its packets are grouped into datagrams. Source lists, extensions, padding and RTCP reports in between change nothing.",
    ["inputs", "fault_sequences"], "every timestamp, unit content, number of units, header form, grouping and cut within the bounds",
    "The tests decode recordings and count packets.",
    ["src/avformat/sps_avformat_rtpdec_aac.cpp", "src/avformat/sps_avformat_rtpdec_ts.cpp", "src/avformat/sps_avformat_rtp.cpp", "src/avformat/sps_avformat_rtpdec.cpp"],
    [("AU header section", "src/avformat/sps_avformat_rtpdec_aac.cpp"), ("datagrams to TsDemuxer", "src/avformat/sps_avformat_rtpdec_ts.cpp")], ["packets returned by RtpDemuxer"],
    "2 packets of 1-2 units of 1, 3 or 300 bytes, cuts of up to 6 (thorough 250) bytes; one video unit in 2 ts packets in 5 groupings", "access units cut over several datagrams")
add("P33", "The SRT transport is a byte stream that reports exactly what happened",
    "Reads over SRT return the bytes of the received messages in order, none lost, repeated or invented, whatever sizes are asked for; a full read is full or an error that tells how much came; end, timeout and failure are told apart. A write succeeds only if all of its bytes were sent, in messages SRT can carry, and waits while the send buffer is full, also when SRT takes only part of it. A blocked reader or writer is woken by its own connection's events, also after the other has timed out, and only its coroutine waits. Listening succeeds exactly if the port could be taken, leaving no descriptor open otherwise; every accepted client gets its own connection with its address, a failed accept none; connections are closed when they are let go. Connecting dials exactly the given address and port, and a failure at any step is an error that leaves nothing open.",
    ["inputs", "schedules", "fault_sequences", "histories"], "every content, message and request size, arrival, outcome of the SRT calls and schedule of two readers and a writer within the bounds",
    "No test uses SRT; a lost wake-up needs an event at a particular point.",
    ["src/sys/st/io/sps_sys_st_io_srt.cpp"], [("epoll dispatcher coroutine and waiters", "src/sys/st/io/sps_sys_st_io_srt.cpp")], ["results of StSrtSocket and StSrtServerSocket", "SRT calls made"],
    "2-3 messages of 1-2 or 1316 bytes, 2-3 requests of 5 sizes; writes of 9 sizes with 0-3 free slots; all combinations of failing set-up calls; 3 coroutines with 1-2 voluntary and 5-8 chosen forced switches; libsrt is a model (harness/srtnet.hpp)")
add("P34", "A stream published over SRT reaches raw and decoded viewers, under one name",
    "A transport stream published over SRT is relayed to SRT viewers of the same name as unmodified packets: the tables, the packets since the latest unit start, and every later packet, in order, up to the publisher's end or the viewer's own failure, which harms nobody else. Its decoded units reach other viewers in order and completely. At most one publisher holds a name at a time: a second one is refused before it is read, publishers of other names do not matter, and a name is free again when its publisher ends.",
    ["schedules", "histories", "fault_sequences"], "every schedule of two publishers, a raw and a decoded viewer, joins at every point, and ends and failures within the bounds",
    "No test publishes over SRT.",
    ["src/module/srt/sps_srt_stream_handler.cpp", "src/module/srt/sps_srt_server_handler.cpp", "src/module/stream/sps_stream_cache.cpp"], [("publish, relay and play over SRT", "src/module/srt/sps_srt_stream_handler.cpp")], ["messages sent to viewers", "packets in the stream cache"],
    "2 publishers of 2 units, 2 viewers, 1-2 voluntary and 3-5 chosen forced switches")
NOT_APPLICABLE = {}
add("P05", "Hostile transport streams never read outside the received packets",
    "For any transport stream packets a publisher sends (any adaptation field, table, unit header or elementary stream bytes), decoding ends in packets or an error: no crash, no endless loop, no access outside the 188 bytes of a packet or the received bytes of a unit, and no delivered packet holds more than was received. Packets of unknown streams and continuations of tables are skipped without harm.",
    ["inputs"], "every flag combination and every boundary value of the length fields, in packets of every kind, within the bounds",
    "No test feeds transport streams; each failing length is a specific value of one field.",
    ["src/avformat/sps_avformat_ts.cpp", "src/avformat/sps_avformat_tsdec.cpp", "src/avcodec/sps_avcodec_h264_parser.cpp", "src/avcodec/sps_avcodec_aac_parser.cpp"], [("length checks before reading", "src/avformat/sps_avformat_ts.cpp")], ["TsDemuxer::decode_packet and the packets it yields"],
    "one hostile packet after valid tables, followed by a valid unit of each stream: adaptation lengths from a boundary set with all 256 flag bytes; table pointers, section lengths, descriptor lengths and payload sizes from boundary sets; all 256 unit-header flag bytes and extension flags, header and unit lengths from boundary sets; elementary streams of up to 8-12 arbitrary bytes")
add("P06", "Transport streams are reassembled into exactly the units they carry",
    "From a well-formed transport stream, every complete unit (PES) of the announced H.264 and AAC streams becomes packets with exactly its bytes and its 33-bit decode and presentation times, in order of completion, however the units are cut into packets, mixed with each other, with repeated tables (pointer field, descriptors, network and service tables), null and unknown packets, and however the transport delivers the bytes; the audio configuration precedes the audio. The packets of the program's tables and streams are handed to the relay unmodified and in order. When a packet of a stream is lost, units before the gap are delivered whole, the gap is reported as an error at the stream's next packet, and no unit with a hole is ever delivered.",
    ["inputs", "schedules", "fault_sequences"], "every timestamp, every mix of video and audio units, packetisation, table layout and single lost packet within the bounds",
    "No test decodes a transport stream; the defects need a particular layout (pointer field, sized units, a lost continuation packet).",
    ["src/avformat/sps_avformat_ts.cpp", "src/avformat/sps_avformat_tsdec.cpp"], [("section and PES reassembly with continuity counter", "src/avformat/sps_avformat_ts.cpp"), ("PES to codec parser", "src/avformat/sps_avformat_tsdec.cpp")], ["packets returned by TsDemuxer", "packets given to the relay handler"],
    "2 units (3 with a loss) of 1-2 (thorough 3) packets each, all 33-bit timestamps, 3 interleavings, 2 table layouts; 20 units over the clock's wrap with a gap of 1-15 packets anywhere",
    "Continuity counters start at 0; tables fit one packet; the unit a stream ends with is not flushed; units above 1 MiB without a length are refused.")
add("P10", "H.264 byte streams become exactly their NAL units",
    "From an Annex-B byte stream (3- or 4-byte start codes) every slice and SEI unit becomes one packet holding the unit byte for byte behind its 4-byte length, with the unit's kind (only IDR slices are key frames) and the given times; sequence and picture parameters become one configuration record that carries them exactly, and other units are dropped. Zero bytes before a start code or at the end belong to no unit. A single raw unit is treated the same way. Any bytes at all end in packets made of received bytes or an error, never in a crash, an endless loop or a read outside the input.",
    ["inputs"], "every unit content, kind, start code and time within the bounds; every byte sequence within the bounds",
    "No test parses H.264; a wrong split needs a particular content around a start code.",
    ["src/avcodec/sps_avcodec_h264_parser.cpp", "src/avcodec/sps_avcodec_parser.cpp"], [("start-code scanner and configuration record", "src/avcodec/sps_avcodec_h264_parser.cpp")], ["packets returned by H264AVCodecParser"],
    "2-3 units of up to 3 symbolic bytes, every type; units up to 70001 bytes; up to 300 units; 8-10 arbitrary bytes")
add("P11", "ADTS audio becomes exactly its frames",
    "Every complete ADTS frame becomes one packet with exactly the frame's bytes without its header (7 or 9 bytes) and the given time; a configuration packet naming profile, sampling rate and channels precedes the first frame and every frame whose configuration differs from the one before, and no other. An incomplete or malformed frame is an error: no packet is delivered for it, and no read leaves the input.",
    ["inputs", "histories"], "every header field, content and sequence of frames within the bounds; every byte sequence within the bounds",
    "No test parses AAC; the failing frames need particular header bits or lengths.",
    ["src/avcodec/sps_avcodec_aac_parser.cpp", "src/avcodec/sps_avcodec_parser.cpp"], [("ADTS header parser", "src/avcodec/sps_avcodec_aac_parser.cpp")], ["packets returned by AacAVCodecParser"],
    "2 calls of 1-2 frames with 0-1 (2) symbolic bytes and all header fields; 10-12 arbitrary bytes, alone and after a frame; plus frames of the largest sizes the length fields hold")
add("P35", "The UDP transport keeps datagrams whole and clients apart",
    "A UDP server gives every client, told apart by both its address and port and the local address it wrote to, one connection of its own, offered for acceptance once: reads on it return exactly that client's datagrams (of up to 4096 bytes), whole, in order, each once, and what is written to it goes to that client's address and port from the one server socket. A client that has been let go starts anew with its next datagram. Up to 4000 datagrams wait unread for a client, and a waiting reader is woken by the next one. A UDP client connects to its peer and reads the datagrams that come, whole. Reads report the number of bytes; timeouts, interruptions and failures are told apart; a failed receive does not harm the clients. Listening succeeds exactly if the port could be taken; nothing is left open after a failure or when the socket is let go.",
    ["inputs", "schedules", "fault_sequences", "histories"], "every content and order of datagrams of up to four clients, every outcome of the socket calls, every schedule of the dispatcher and the sessions within the bounds",
    "No test uses UDP; mixing up two clients needs equal ports or equal addresses, a lost packet a departure at a particular point.",
    ["src/sys/st/io/sps_sys_st_io_udp.cpp"], [("per-client queues and the accept queue", "src/sys/st/io/sps_sys_st_io_udp.cpp")], ["results of StUdpSocket and StUdpServerSocket", "socket calls made"],
    "3 (thorough 4) datagrams of 1-3 symbolic bytes of 4 clients, sessions reading 1-2 datagrams, 1 voluntary and 3-4 chosen forced switches; 4010 queued datagrams; socket calls are stubs",
    "empty datagrams; endless receive errors")
add("P36", "TLS delivers plain text exactly and serves only finished handshakes",
    "A TLS connection is established exactly if both sides can finish the handshake, however its messages are split or joined on the wire: the server presents the certificate of the host the client asked for, the client asks for the host it was given, and without a usable certificate or with a broken handshake the connection is refused and never served. Reads return exactly the plain text the peer sent, in order, also what arrives together with the end of the handshake; a full read is full or an error that tells how much came; the peer's end is told from a failure. A write succeeds only if all of it was sent. A failed accept or handshake harms no other client or connection, a client that stalls its handshake keeps nobody out and is given up, and nothing is left allocated or open.",
    ["inputs", "schedules", "fault_sequences"], "every content, every split of the wire bytes within the bounds, every combination of certificate and handshake failures, every outcome of the transport",
    "No test uses TLS; data that arrives with the handshake or a split record needs a particular arrival.",
    ["src/sys/st/io/sps_sys_st_io_ssl.cpp", "src/sys/st/io/sps_sys_st_io_ssl.hpp"], [("handshake and memory BIOs", "src/sys/st/io/sps_sys_st_io_ssl.cpp")], ["results of the TLS socket", "bytes on the wire", "OpenSSL objects alive"],
    "two flights each way, 2-3 records of up to 3 symbolic bytes, 2-3 requests, splits at 1-2 points, 3 clients of five kinds; OpenSSL is a model (record framing, handshake steps, memory BIOs, the thread's error queue), its cryptography is outside")
add("P37", "Each server block serves its protocol over the transport it names",
    "Every configured server listens on its own port over its own transport: HTTP over TCP, over TLS and over SRT, and the SRT protocol over SRT (a UDP port, which may have the number of a TCP one); the process starts exactly if every port could be had. A client is served by the server it called, with that server's hosts, and answered over the transport it came by; a TLS client gets the certificate of the host it asked for and is refused if there is none, and a client that speaks another protocol gets no data and harms nobody. A stream published over SRT is served under its name to viewers of every server, as FLV over TCP, TLS and SRT (every picture, unchanged, in order, at its time) and as the transport stream over SRT.",
    ["inputs", "schedules", "configurations"], "every pair of clients of ten kinds, every order of publisher and viewer and every content of pictures and answers within the bounds, every port that cannot be had",
    "No test starts a server on any transport.",
    ["src/module/server/sps_server_module.cpp", "src/module/server/sps_server.cpp", "src/module/srt/sps_srt_module.cpp", "src/module/http/sps_http_module.cpp", "src/io/sps_io_socket.cpp", "src/module/host/sps_host_module.cpp", "src/module/host/sps_host_router_handler.cpp"],
    [("choice of transport", "src/module/server/sps_server_module.cpp"), ("creation of server sockets", "src/io/sps_io_socket.cpp")], ["ports bound and listening calls", "bytes sent to clients and upstreams"],
    "four servers; 2 clients of ten kinds with 2 chosen forced switches (thorough 1 voluntary switch); a publisher of 2-3 pictures of symbolic content and one viewer of four kinds with 1 voluntary and 2-3 chosen forced switches; kernel sockets, libsrt, OpenSSL and the coroutine library are models")
add("P38", "The FFmpeg adapters hand on every frame at its time and outlive any failure",
    "Where FFmpeg does the formats, every frame it reads from a publisher is handed on once, in order, with its bytes, its stream, its kind (video, audio, other), its key flag if it is video, and its timestamps in its stream's time base, and FFmpeg gets exactly the publisher's bytes as they arrive; a publisher that ends or fails, and one whose stream FFmpeg cannot open, ends in an error. Every packet of a video, audio, subtitle or data stream is given to FFmpeg's muxer once, for the output stream made for its own, with its bytes, flag and timestamps (absent ones stay absent) in that output stream's time base; other streams are left out. What the muxer writes reaches the viewer unchanged, and a write that fails is an error, as is a packet FFmpeg did not make. A path whose format FFmpeg does not know is refused. No timestamp, stream layout or failure ends the process, a packet shared with other viewers is left as it was, and everything opened is closed once.",
    ["inputs", "fault_sequences"], "every content, every timestamp (also absent and negative ones), every stream layout, split, cut and failure within the bounds",
    "The test program with FFmpeg needs media files and decides nothing about layouts, timestamps or failures.",
    ["src/avformat/sps_avformat_ffmpeg.cpp", "src/avformat/sps_avformat_ffmpeg_dec.cpp", "src/avformat/sps_avformat_ffmpeg_enc.cpp"],
    [("reading frames", "src/avformat/sps_avformat_ffmpeg_dec.cpp"), ("writing packets", "src/avformat/sps_avformat_ffmpeg_enc.cpp")], ["packets handed on", "calls of FFmpeg's muxer", "bytes the viewer gets", "FFmpeg objects alive"],
    "1-2 streams of six kinds and four time bases, 0-3 frames of 2-3 symbolic bytes with symbolic 16-bit or absent timestamps, one failure; FFmpeg's libraries are a model (opening, frames read and written as raw bytes, rescaling), their formats are outside")
P.sort(key=lambda p: p["id"])
