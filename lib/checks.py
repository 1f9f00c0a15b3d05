"""Which engine, scenarios and sources decide each property."""
# part: (engine, binary, scenario sources, options)
A_THREAD = ("a", "a_thread", ["sc_thread.cc"], {"net": False})
A_ATOMIC = ("a", "a_atomic", ["sc_atomic.cc"], {"net": False})
A_LOOP = ("a", "a_loop", ["sc_loop.cc"], {})
A_CONN = ("a", "a_conn", ["sc_conn.cc"], {})
A_SERVER = ("a", "a_server", ["sc_server.cc"], {})
A_TEXT = ("a", "a_text", ["sc_text.cc"], {"net": False})
A_LOG = ("a", "a_log", ["sc_log.cc"], {"net": False, "extra": ["-DKANON_VERIF_LARGE_STREAM_SIZE=256"]})
A_E2E = ("a", "a_e2e", ["sc_e2e.cc"], {})
A_SOCK = ("a", "a_sock", ["sc_sock.cc"], {})
A_CLIENT = ("a", "a_client", ["sc_client.cc"], {})
A_PB = ("a", "a_pb", ["sc_pb.cc"], {"pb": True})
A_RPC = ("a", "a_rpc", ["sc_rpc.cc"], {"pb": True})
def b(name, *srcs, **kw): return ("b", "b_" + name, ["enumer.cc"] + list(srcs), kw)
PARTS = {
    "P01": [A_CONN], "P02": [A_CONN, A_E2E], "P03": [A_CONN], "P04": [A_CONN], "P05": [A_CONN, A_SERVER, A_CLIENT],
    "P06": [A_LOOP], "P07": [A_LOOP], "P08": [A_LOOP], "P09": [A_LOOP], "P10": [A_LOOP], "P11": [A_LOOP],
    "P12": [A_SERVER], "P13": [A_SERVER], "P14": [A_CLIENT], "P15": [A_CLIENT],
    "P16": [A_THREAD], "P17": [A_THREAD], "P18": [A_THREAD], "P19": [A_THREAD], "P20": [A_THREAD],
    "P21": [A_LOG], "P22": [A_LOG, b("process", "case_process.cc", ld=["-Wl,--wrap=gethostname,--wrap=uname"])],
    "P23": [b("logger", "case_logger.cc", ld=["-Wl,--wrap=gettimeofday,--wrap=clock_gettime,--wrap=abort"]), A_LOG],
    "P24": [b("buffer", "case_buffer.cc", net=True, ld=["-Wl,--wrap=readv"])],
    "P25": [b("chunk", "case_chunk.cc", net=True, ld=["-Wl,--wrap=writev,--wrap=write"])],
    "P26": [b("list", "case_list.cc")],
    "P27": [b("pool", "case_pool.cc", ld=["-Wl,--wrap=malloc"])],
    "P28": [b("view", "case_view.cc")],
    "P29": [b("lexical", "case_lexical.cc"), A_TEXT],
    "P30": [b("fmt", "case_fmt.cc", ld=["-Wl,--wrap=__assert_fail"]), A_TEXT],
    "P31": [b("inet", "case_inet.cc", net=True, ld=["-Wl,--wrap=getaddrinfo,--wrap=freeaddrinfo"])],
    "P32": [b("any", "case_any.cc")],
    "P33": [b("time", "case_time.cc", ld=["-Wl,--wrap=gettimeofday,--wrap=clock_gettime"])],
    "P34": [b("array", "case_array.cc")],
    "P37": [A_THREAD, b("ptr", "case_ptr.cc", extra=["-std=gnu++11"])],
    "P35": [A_PB, b("pb", "case_pb.cc", net=True, pb=True)],
    "P36": [A_RPC],
    "P38": [A_SOCK],
    "P39": [A_ATOMIC],
}
NA = {}
