"""Which harnesses decide which property, with their bounds."""
PROPS = {}
COMMON_ASSUMPTIONS = [
    "log output is dropped (rt/env.cpp), so the log back end is not exercised unless a property is about it",
    "memory allocation never fails; uninitialised memory holds 0xAA bytes",
    "the code is the clang -O1 front-end's LLVM IR of the current sources plus scalar optimisation passes; libc/libstdc++ internals are models in rt/ (native replays use the real ones)",
    "one state-threads coroutine runs at a time: control changes hands only at blocking calls, modelled where a harness has them",
]
def H(name, file, reach, defines=None, thorough=None, **kw):
    d = dict(name=name, file=file, reach=reach, defines=defines or {}, thorough=thorough or {})
    d.update(kw)
    return d
PROPS["P01"] = dict(harnesses=[
    H("read", "bits.cpp", ["read", "short", "bytes"], dict(MODE=0, N=7, FIELDS=2, W=32), dict(N=11, FIELDS=3), workers=4),
    H("write", "bits.cpp", ["write"], dict(MODE=1, N=17, FIELDS=2, W=57), dict(N=17, FIELDS=3, W=33), workers=4),
    H("fixed", "bits.cpp", ["fixed"], dict(MODE=2)),
    H("acquire", "bits.cpp", ["acquire"], dict(MODE=3, N=6)),
])
PROPS["P02"] = dict(harnesses=[
    H("reader", "bytes.cpp", ["full", "eof", "end"], dict(MODE=0, N=6, CAP=5, SPLITS=2, OPS=2), dict(OPS=3, N=7), workers=4),
    H("large", "bytes.cpp", ["full", "eof", "end"], dict(MODE=6, N=4, CAP=5, SPLITS=0, OPS=2), workers=4, max_instr=100000000),
    H("writer", "bytes.cpp", ["nofit", "roundtrip"], dict(MODE=1)),
    H("socket", "bytes.cpp", ["full", "err"], dict(MODE=2, N=4), dict(N=6)),
    H("memlines", "bytes.cpp", ["lines"], dict(MODE=3, N=5), dict(N=8)),
    H("memread", "bytes.cpp", ["read", "fully", "end"], dict(MODE=4, N=4)),
    H("memwrite", "bytes.cpp", ["written"], dict(MODE=5, N=4)),
])
PROPS["P03"] = dict(harnesses=[
    H("mux", "flv.cpp", ["filtered", "muxed", "failed"], dict(MODE=0, TAGS=2, MAXP=2), dict(TAGS=3, MAXP=3), workers=2),
    H("demux", "flv.cpp", ["truncated", "demuxed"], dict(MODE=1, TAGS=2, MAXP=2, SPLITS=1), dict(TAGS=2, MAXP=3, SPLITS=2), workers=4),
])
PROPS["P03"]["harnesses"].append(H("large", "flv.cpp", ["large"], dict(MODE=4, MAXP=2), max_instr=200000000, workers=8))
PROPS["P03"]["harnesses"].append(H("many", "flv.cpp", ["many"], dict(MODE=5, MAXP=2), max_instr=300000000, workers=8))
PROPS["P04"] = dict(harnesses=[
    H("tags", "flv.cpp", ["error", "packet"], dict(MODE=2, N=40, MAXP=2), dict(N=56), workers=4),
    H("head", "flv.cpp", ["error", "packet", "badhead"], dict(MODE=2, N=32, WITH_HEAD=1, MAXP=2), dict(N=48), workers=2),
])
PROPS["P04"]["harnesses"].append(H("edge", "flv.cpp", ["tiny", "rejected"], dict(MODE=3, MAXP=2), max_instr=20000000))
PROPS["P20"] = dict(harnesses=[
    H("gop", "cache.cpp", ["joined"], dict(MODE=0, STEPS=4), dict(STEPS=5), workers=4),
])
PROPS["P20"]["harnesses"].append(H("long", "cache.cpp", ["long"], dict(MODE=4, STEPS=4), max_instr=100000000, workers=4))
PROPS["P21"] = dict(harnesses=[
    H("fanout", "cache.cpp", ["cancelled", "gone", "delivered", "woken"], dict(MODE=1, STEPS=5, CLIENTS=2), dict(STEPS=6, CLIENTS=2), workers=8),
])
PROPS["P21"]["harnesses"].append(H("long", "cache.cpp", ["long"], dict(MODE=5, STEPS=4), max_instr=100000000, workers=4))
PROPS["P21"]["harnesses"].append(H("many", "cache.cpp", ["many"], dict(MODE=9), max_instr=200000000, workers=4))
PROPS["P24"] = dict(harnesses=[
    H("rawcache", "cache.cpp", ["end"], dict(MODE=2, STEPS=5), dict(STEPS=7)),
    H("long", "cache.cpp", ["long"], dict(MODE=6, STEPS=4), max_instr=100000000, workers=4),
])
PROPS["P30"] = dict(harnesses=[
    H("buffer", "cache.cpp", ["end"], dict(MODE=3)),
    H("large", "cache.cpp", ["end"], dict(MODE=7), max_instr=100000000, workers=4),
])
PROPS["P22"] = dict(harnesses=[
    H("lifecycle", "stream.cpp", ["refused", "published", "absent", "played"], dict(MODE=0, JOBS=3, TAGS=2, SWITCHES=2), dict(TAGS=3, SWITCHES=3), workers=8),
    H("names", "stream.cpp", ["refused", "published", "absent", "played"], dict(MODE=0, JOBS=2, TAGS=1, SWITCHES=1, NPAIRS=6), dict(TAGS=2, SWITCHES=2), workers=8),
    H("broken", "stream.cpp", ["published", "broke", "played"], dict(MODE=0, JOBS=2, TAGS=3, SWITCHES=2, BREAKS=8), dict(JOBS=3, SWITCHES=2), workers=8),
    H("permission", "stream.cpp", ["allowed", "denied"], dict(MODE=1, JOBS=1, TAGS=1, SWITCHES=0)),
])
PROPS["P22"]["harnesses"].append(H("many", "cache.cpp", ["many"], dict(MODE=8), max_instr=200000000, workers=4))
PROPS["P23"] = dict(harnesses=[
    H("edge", "edge.cpp", ["unknown", "refused", "played", "again"], dict(JOBS=2, TAGS=2, SWITCHES=2, SAME=0), dict(SWITCHES=4), workers=8),
    H("three", "edge.cpp", ["refused", "played", "again"], dict(JOBS=3, TAGS=1, SWITCHES=1, SAME=1), dict(SWITCHES=2), workers=8),
    H("taken", "edge.cpp", ["refused", "played", "published", "taken"], dict(JOBS=1, TAGS=2, SWITCHES=4, SAME=1, PUB=1), dict(JOBS=2, SWITCHES=2), workers=8),
])
PROPS["P16"] = dict(harnesses=[
    H("origin", "url.cpp", ["refused", "parsed"], dict(MODE=0, PORTLEN=5, PATH=1, QUERY=1), workers=4),
    H("target", "url.cpp", ["param", "ext", "parsed"], dict(MODE=0, PORTLEN=0, ONE=1, PATH=4, QUERY=5), dict(PATH=5, QUERY=6), workers=8),
    H("long", "url.cpp", ["host", "path", "query"], dict(MODE=2), workers=4, max_instr=20000000),
    H("any", "url.cpp", ["refused", "file", "parsed"], dict(MODE=1, N=4), dict(N=6), workers=4),
])
PROPS["P12"] = dict(harnesses=[
    H("frame", "http_head.cpp", ["incomplete", "malformed", "head"], dict(MODE=0, N=11, VAL=2), dict(N=14), workers=8),
    H("request", "http_head.cpp", ["request"], dict(MODE=1, HDRS=1, VAL=1), dict(HDRS=2, VAL=3), workers=8),
    H("response", "http_head.cpp", ["response"], dict(MODE=2, HDRS=1, VAL=2), dict(HDRS=2, VAL=3), workers=4),
    H("many", "http_head.cpp", ["request", "response"], dict(MODE=4, VAL=1), workers=8, max_instr=20000000),
    H("long", "http_head.cpp", ["fits", "long"], dict(MODE=3, LIMITHEAD=128, VAL=1), dict(LIMITHEAD=2048)),
])
for _p, _s in (("P13", 1), ("P14", 0)):
    PROPS[_p] = dict(harnesses=[
        H("length", "http_body.cpp", ["complete", "unbounded", "cut"], dict(MODE=0, SERVER=_s, N=3, SPLITS=2), dict(N=5, SPLITS=4), workers=4),
        H("large", "http_body.cpp", ["large"], dict(MODE=1, SERVER=_s)),
        H("chunks", "http_body.cpp", ["complete", "cut"], dict(MODE=2, SERVER=_s, CHUNKS=2, SPLITS=0), dict(SPLITS=2), workers=8),
        H("hostile", "http_body.cpp", ["end", "bad"], dict(MODE=3, SERVER=_s, N=4), dict(N=6), workers=8),
    ])
    PROPS[_p]["harnesses"].append(H("big", "http_body.cpp", ["complete", "cut"], dict(MODE=7, SERVER=_s, BUFSZ=0x1b000, GOTSZ=0x20000), workers=8, max_instr=60000000))
    PROPS[_p]["harnesses"].append(H("lines", "http_body.cpp", ["whole", "refused"], dict(MODE=5, SERVER=_s)))
PROPS["P14"]["harnesses"].append(H("none", "http_body.cpp", ["none", "body"], dict(MODE=6, SERVER=0)))
PROPS["P14"]["harnesses"].append(H("open", "http_body.cpp", ["failed", "status"], dict(MODE=4, SERVER=0)))
PROPS["P15"] = dict(harnesses=[
    H("frame", "http_resp.cpp", ["chunked", "length", "close"], dict(HDRS=1, WRITES=2, FAILS=0), dict(HDRS=2, WRITES=2), workers=8, max_instr=20000000),
    H("big", "http_resp.cpp", ["chunked", "length", "close"], dict(HDRS=0, WRITES=1, FAILS=0, BIG=1), dict(HDRS=1), workers=8, max_instr=60000000),
    H("fail", "http_resp.cpp", ["failed"], dict(HDRS=1, WRITES=1, FAILS=1), dict(WRITES=2), workers=8, max_instr=20000000),
])
PROPS["P18"] = dict(harnesses=[
    H("text", "config.cpp", ["refused", "parsed"], dict(MODE=0, VALUE=1), workers=8),
    H("typed", "config.cpp", ["typed", "refused", "unreadable"], dict(MODE=1)),
    H("blocks", "config.cpp", ["blocks"], dict(MODE=2)),
    H("many", "config.cpp", ["many"], dict(MODE=4), workers=8, max_instr=200000000),
    H("any", "config.cpp", ["ok", "refused"], dict(MODE=3, NBYTES=3), dict(NBYTES=5), workers=8),
])
PROPS["P25"] = dict(harnesses=[
    H("serial", "server.cpp", ["200", "404", "403", "closed", "kept", "relayed"], dict(MODE=0, CONNS=1, REQS=2, SWITCHES=0, SPLIT=0, UPS=4), dict(REQS=3), workers=8),
    H("parallel", "server.cpp", ["200", "404", "closed", "relayed"], dict(MODE=0, CONNS=2, REQS=1, SWITCHES=2, SPLIT=0, UPS=1, KINDS="{0,3,2}"), dict(REQS=2, SWITCHES=2), workers=8),
    H("start", "server.cpp", ["refused", "started"], dict(MODE=1, CONNS=1, REQS=1, SWITCHES=0, SPLIT=0, UPS=1)),
    H("accept", "server.cpp", ["lost", "404"], dict(MODE=2, CONNS=2, REQS=1, SWITCHES=0, SPLIT=0, UPS=1)),
])
PROPS["P29"] = dict(harnesses=[
    H("body", "proxy.cpp", ["failed", "noanswer", "cut", "close", "relayed"], dict(MODE=0, MAXB=3), dict(MAXB=5), workers=8),
    H("head", "proxy.cpp", ["bodiless", "close", "relayed"], dict(MODE=1), workers=8),
    H("large", "proxy.cpp", ["failed", "close", "relayed"], dict(MODE=2, FULL=0), dict(FULL=1), workers=8),
])
PROPS["P31"] = dict(harnesses=[
    H("socket", "tcp.cpp", ["full", "short", "read", "ended"], dict(MODE=0), workers=4),
    H("connect", "tcp.cpp", ["failed", "connected"], dict(MODE=1)),
    H("listen", "tcp.cpp", ["refused", "none", "client"], dict(MODE=2)),
])
PROPS["P33"] = dict(harnesses=[
    H("read", "srt.cpp", ["full", "short", "read", "ended"], dict(MODE=0, MSGS=2, OPS=2), dict(MSGS=3, OPS=3), workers=8),
    H("write", "srt.cpp", ["sent", "failed"], dict(MODE=1), workers=8),
    H("listen", "srt.cpp", ["ok", "failed"], dict(MODE=2)),
    H("connect", "srt.cpp", ["failed", "connected"], dict(MODE=5)),
    H("accept", "srt.cpp", ["client", "none"], dict(MODE=3)),
    H("several", "srt.cpp", ["done"], dict(MODE=4, SWITCHES=1, FORCED=5, TIMEOUTS=0), dict(SWITCHES=2, FORCED=8), workers=8),
    H("timeouts", "srt.cpp", ["done", "early"], dict(MODE=4, SWITCHES=0, FORCED=5, TIMEOUTS=1), dict(SWITCHES=1, FORCED=8), workers=8),
])
PROPS["P34"] = dict(harnesses=[
    H("relay", "srtrelay.cpp", ["viewer", "absent", "twice", "decoded"], dict(UNITS=2, SWITCHES=1, FORCED=3), dict(SWITCHES=2, FORCED=5), workers=8, max_instr=20000000),
])
PROPS["P19"] = dict(harnesses=[
    H("lookup", "hosts.cpp", ["exact", "wild", "none", "default"], dict(MODE=0), workers=8),
    H("many", "hosts.cpp", ["many"], dict(MODE=3), workers=4, max_instr=200000000),
    H("refused", "hosts.cpp", ["illegal", "twice"], dict(MODE=1)),
    H("servers", "hosts.cpp", ["refused", "known", "unknown"], dict(MODE=2), workers=8),
])
PROPS["P27"] = dict(harnesses=[
    H("text", "log.cpp", ["line"], dict(MODE=0, LEN=3), dict(LEN=5), extra=["log/sps_log.cpp"], workers=2),
    H("long", "log.cpp", ["long"], dict(MODE=1), extra=["log/sps_log.cpp"]),
])
PROPS["P17"] = dict(harnesses=[
    H("id", "srtid.cpp", ["request", "publish"], dict(MODE=0), workers=4),
    H("long", "srtid.cpp", ["request", "publish"], dict(MODE=2), workers=4),
    H("any", "srtid.cpp", ["parsed", "refused"], dict(MODE=1, NBYTES=4), dict(NBYTES=6), workers=4),
])
PROPS["P28"] = dict(harnesses=[
    H("ext", "formats.cpp", ["dec", "enc", "none"], dict(NBYTES=4), workers=4),
])
PROPS["P11"] = dict(harnesses=[
    H("frames", "codec.cpp", ["frames"], dict(MODE=0, CALLS=2, MAXD=1, TB=90), dict(MAXD=2), workers=8),
    H("long", "codec.cpp", ["frames"], dict(MODE=6, TB=90), max_instr=50000000, workers=4),
    H("any", "codec.cpp", ["good", "bad"], dict(MODE=1, NBYTES=10, PREFIX=0), dict(NBYTES=12), workers=4),
    H("second", "codec.cpp", ["good", "bad"], dict(MODE=1, NBYTES=10, PREFIX=1), workers=4),
])
PROPS["P10"] = dict(harnesses=[
    H("nals", "codec.cpp", ["config", "data"], dict(MODE=2, NALS=2, MAXD=3, TB=90), dict(NALS=3), workers=8),
    H("raw", "codec.cpp", ["config", "data"], dict(MODE=3, NALS=1, MAXD=3, TB=1), workers=4),
    H("any", "codec.cpp", ["good", "bad"], dict(MODE=4, NBYTES=8, RAW=0, TB=90), dict(NBYTES=10), workers=8),
    H("large", "codec.cpp", ["data"], dict(MODE=5, TB=90), max_instr=50000000, workers=4),
    H("many", "codec.cpp", ["data"], dict(MODE=7, TB=90), max_instr=50000000, workers=4),
    H("anyraw", "codec.cpp", ["good", "bad"], dict(MODE=4, NBYTES=6, RAW=1, TB=1)),
])
PROPS["P06"] = dict(harnesses=[
    H("units", "ts.cpp", ["units", "mixed"], dict(MODE=0, UNITS=2, BIG=1, ORDERS=2, FULL=0), dict(BIG=2, FULL=1), workers=8, max_instr=20000000),
    H("lost", "ts.cpp", ["gap"], dict(MODE=1, UNITS=3, BIG=1, ORDERS=0, FULL=0), dict(BIG=2, FULL=1), workers=8, max_instr=20000000),
])
PROPS["P06"]["harnesses"].append(H("forms", "ts.cpp", ["video", "audio"], dict(MODE=6, FULL=0), dict(FULL=1), workers=8, max_instr=20000000))
PROPS["P06"]["harnesses"].append(H("cuts", "ts.cpp", ["cut", "long"], dict(MODE=7), dict(), workers=8, max_instr=60000000))
PROPS["P06"]["harnesses"].append(H("many", "ts.cpp", ["many", "gap"], dict(MODE=8), workers=8, max_instr=100000000))
PROPS["P05"] = dict(harnesses=[
    H("adaptation", "ts.cpp", ["good", "refused"], dict(MODE=2, FULL=0), dict(FULL=1), workers=8, max_instr=20000000),
    H("tables", "ts.cpp", ["good", "refused"], dict(MODE=3, FULL=0), dict(FULL=1), workers=8, max_instr=20000000),
    H("header", "ts.cpp", ["good", "refused"], dict(MODE=4, FULL=0), dict(FULL=1), workers=8, max_instr=20000000),
    H("stream", "ts.cpp", ["good", "later"], dict(MODE=5, NBYTES=8), dict(NBYTES=12), workers=8, max_instr=20000000),
])
PROPS["P08"] = dict(harnesses=[
    H("units", "rtp.cpp", ["units", "lost"], dict(MODE=0, ITEMS=2, FULL=1), dict(ITEMS=3), workers=8, max_instr=20000000),
    H("large", "rtp.cpp", ["over", "fits"], dict(MODE=1), max_instr=200000000, workers=4),
])
PROPS["P09"] = dict(harnesses=[
    H("aac", "rtp.cpp", ["units", "cut"], dict(MODE=2, PACKETS=2, UNITS=2, FULL=0), dict(FULL=1), workers=8),
    H("ts", "rtp.cpp", ["unit"], dict(MODE=3), workers=4),
    H("many", "rtp.cpp", ["units"], dict(MODE=7), max_instr=60000000, workers=4),
])
PROPS["P07"] = dict(harnesses=[
    H("header", "rtp.cpp", ["media", "good", "refused"], dict(MODE=4), workers=8),
    H("payload", "rtp.cpp", ["media", "good", "refused"], dict(MODE=5, NBYTES=8), dict(NBYTES=11), workers=8),
    H("rtcp", "rtp.cpp", ["good", "refused"], dict(MODE=6), workers=4),
])
PROPS["P35"] = dict(harnesses=[
    H("client", "udp.cpp", ["failed", "ended", "read", "sent"], dict(MODE=0), workers=8),
    H("server", "udp.cpp", ["failed", "served", "timeout", "done"], dict(MODE=1, DGRAMS=3, SWITCHES=1, FORCED=3), dict(DGRAMS=4, SWITCHES=1, FORCED=4), workers=8),
    H("large", "udp.cpp", ["served", "timeout", "done"], dict(MODE=3, DGRAMS=2, SWITCHES=0, FORCED=0), workers=4),
    H("queue", "udp.cpp", ["kept"], dict(MODE=2), max_instr=50000000),
])
PROPS["P36"] = dict(harnesses=[
    H("server", "tls.cpp", ["refused", "full", "short", "read", "ended", "sent", "wfail"], dict(MODE=0, OPS=2, FULL=0), dict(OPS=3, FULL=1), workers=8),
    H("client", "tls.cpp", ["refused", "full", "short", "read", "ended", "sent", "wfail"], dict(MODE=1, OPS=2, FULL=0), dict(OPS=2, FULL=1), workers=8),
    H("large", "tls.cpp", ["large"], dict(MODE=3, OPS=1, FULL=0), workers=8, max_instr=100000000),
    H("dial", "dial.cpp", ["failed", "tcp", "tls"], dict(), workers=4),
    H("accept", "tls.cpp", ["failed", "client", "done"], dict(MODE=2, CLIENTS=3, SWITCHES=2), workers=4),
])
PROPS["P26"] = dict(harnesses=[
    H("read", "file.cpp", ["end", "read", "short", "full", "line"], dict(MODE=0, N=4, OPS=3), dict(N=5, OPS=4), workers=4),
    H("large", "file.cpp", ["read", "full", "line"], dict(MODE=2), max_instr=200000000, workers=4),
    H("write", "file.cpp", ["missing", "written", "past"], dict(MODE=1)),
])
PROPS["P37"] = dict(harnesses=[
    H("start", "listen.cpp", ["started", "refused", "shared"], dict(MODE=0, SWITCHES=0, FORCED=0)),
    H("serve", "listen.cpp", ["tls", "srt", "plain", "turned away", "unknown", "shared"], dict(MODE=1, SWITCHES=0, FORCED=2), dict(SWITCHES=1, FORCED=1), workers=8),
    H("relay", "listen.cpp", ["tls", "srt", "plain", "ts", "absent"], dict(MODE=2, UNITS=2, SWITCHES=1, FORCED=2), dict(UNITS=3, SWITCHES=1, FORCED=3), workers=8),
])
PROPS["P38"] = dict(harnesses=[
    H("read", "ffmpeg.cpp", ["refused", "read", "cut", "several"], dict(MODE=0, STREAMS=2, FRAMES=2), dict(STREAMS=2, FRAMES=3), workers=8),
    H("write", "ffmpeg.cpp", ["foreign", "skipped", "failed", "written", "head failed", "unknown"], dict(MODE=1, STREAMS=2, FRAMES=1), dict(STREAMS=2, FRAMES=2), workers=8),
])
