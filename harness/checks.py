"""Which harnesses decide which property."""
MOD = "github.com/LogicalOverflow/music-sync"

def pb(f, **kw):
    d = dict(pkg="playback", files=["playback/common_test.go", "playback/" + f])
    d.update(kw)
    return d


STREAM_IMPORTS = ",".join([
    "github.com/faiface/beep/mp3=%s/zzmc/fakemp3" % MOD,
    "github.com/hajimehoshi/oto=%s/zzmc/fakeoto" % MOD,
    "github.com/aristanetworks/goarista/monotime=%s/zzmc/fakemono" % MOD])


def player(f, **kw):
    d = dict(pkg="playback", files=["playback/common_test.go", "playback/" + f], imports=STREAM_IMPORTS, only="playback,timing,util")
    d.update(kw)
    return d


def stream(*f, **kw):
    d = dict(pkg="playback", files=["playback/" + x for x in ("common_test.go", "stream_common_test.go") + f],
             scale="playback:512=2,playback:32768=4", imports=STREAM_IMPORTS, only="playback,timing,util")
    d.update(kw)
    return d


ZLIB = "compress/zlib=%s/zzmc/fakezlib" % MOD
MONO = "github.com/aristanetworks/goarista/monotime=%s/zzmc/fakemono" % MOD


def comm_e(*f, **kw):
    return dict(dict(pkg="comm", files=["comm/" + x for x in ("common_test.go", "realzip_test.go") + f], level="none"), **kw)


def comm_s(*f, **kw):
    return dict(dict(pkg="comm", files=["comm/" + x for x in ("common_test.go", "fakezip_test.go") + f], imports=ZLIB + "," + MONO, only="comm,timing,util"), **kw)


def timing_h(f, **kw):
    return dict(dict(pkg="timing", files=["timing/" + f], imports=MONO, only="timing"), **kw)


def cmd_h(prog, *f, **kw):
    return dict(dict(pkg="cmd/music-sync-" + prog, files=["cmd/" + x for x in f], imports=STREAM_IMPORTS, level="sync", only="timing,playback"), **kw)


def sched_net(*f, **kw):
    return dict(dict(pkg="schedule", files=["schedule/common_test.go", "schedule/net_common_test.go"] + ["schedule/" + x for x in f], imports=STREAM_IMPORTS + "," + ZLIB,
                     only="schedule,timing,util,comm", extra=[("comm", "comm/extra_wire.go"), ("comm", "comm/extra_server.go")]), **kw)


def sched(*f, **kw):
    return dict(dict(pkg="schedule", files=["schedule/common_test.go"] + ["schedule/" + x for x in f], imports=STREAM_IMPORTS,
                     scale="playback:512=2,playback:32768=4", only="schedule,playback,timing,util"), **kw)


CHECKS = {
    "C01": dict(kind="E", harnesses={"wire": comm_e("c01_main_test.go")}),
    "C02": dict(harnesses={"sends": comm_s("c02_main_test.go")}),
    "C03": dict(kind="SE", harnesses={"input": comm_e("c03_enum_test.go", "c03_client_test.go"), "others": comm_s("server_common_test.go", "c03_others_test.go"),
                                     "infoer": cmd_h("infoer", "c03_infoer_test.go", only="timing"),
                                     "player": cmd_h("player", "c03_player_test.go", level="full", only="comm,timing,playback,util,cmd/music-sync-player")}),
    "C04": dict(kind="SE", harnesses={"casts": comm_s("c04_main_test.go"), "server": comm_s("server_common_test.go", "c04_server_test.go"), "histories": comm_s("c04_enum_test.go")}),
    "C05": dict(harnesses={"server": comm_s("server_common_test.go", "c05_main_test.go")}),
    "C07": dict(kind="E", harnesses={"edits": pb("c07_edits_test.go", level="none")}),
    "C08": dict(harnesses={"edits": stream("c08_main_test.go")}),
    "C09": dict(harnesses={"stream": stream("c09_main_test.go")}),
    "C10": dict(harnesses={"stream": stream("stream_specs_test.go", "c10_main_test.go")}),
    "C11": dict(harnesses={"stream": stream("stream_specs_test.go", "c11_main_test.go")}),
    "C12": dict(kind="SE", harnesses={"stream": stream("c12_main_test.go"), "decoder": dict(pkg="playback", files=["playback/damaged_songs_test.go", "playback/c12_real_test.go"], level="none")}),
    "C14": dict(harnesses={"queue": pb("c14_queue_test.go", only="playback")}),
    "C15": dict(harnesses={"chunks": player("c15_main_test.go")}),
    "C16": dict(kind="SE", harnesses={"player": player("c16_main_test.go")}),
    "C17": dict(kind="E", harnesses={"output": pb("c17_main_test.go", level="none")}, level="exploration"),
    "C18": dict(kind="E", harnesses={"rounds": timing_h("c18_main_test.go", level="sync"), "player": cmd_h("player", "player_handler_test.go", "c18_handler_test.go"), "infoer": cmd_h("infoer", "infoer_handler_test.go", "c18_handler_test.go")}),
    "C19": dict(harnesses={"rounds": timing_h("c19_main_test.go")}),
    "C23": dict(kind="E", level="exploration", harnesses={"lines": dict(pkg="ssh/parser", files=["ssh/ref_parser_test.go", "ssh/c23_main_test.go"], level="none")}),
    "C24": dict(kind="E", level="exploration", harnesses={"completion": dict(pkg="ssh", files=["ssh/ref_ssh_test.go", "ssh/c24_main_test.go"], level="none")}),
    "C25": dict(kind="E", level="exploration", harnesses={"access": dict(pkg="ssh", files=["ssh/c25_main_test.go"], level="none")}),
    "C28": dict(kind="E", level="exploration", harnesses={"log": dict(pkg="logging", files=["logging/c28_main_test.go"], level="none"), "options": dict(pkg="cmd", files=["cmd/c28_options_test.go"], level="none")}),
    "C30": dict(harnesses={"collector": dict(pkg="util", files=["util/c30_main_test.go"], only="util")}),
    "C06": dict(harnesses={"server": sched("c06_main_test.go"), "net": sched_net("c06_net_test.go"), "order": comm_s("c06_order_test.go"),
                           "player": cmd_h("player", "player_handler_test.go", "c06_player_test.go", "c06_volume_test.go", level="full",
                                           only="comm,timing,playback,util,cmd/music-sync-player", extra=[("playback", "playback/extra_volume.go")]),
                           "infoer": cmd_h("infoer", "infoer_handler_test.go", "c06_infoer_test.go", "c06_volume_test.go", level="full",
                                           only="comm,timing,playback,util,cmd/music-sync-infoer")}),
    "C20": dict(harnesses={"history": sched("c20_common_test.go", "c20_main_test.go"), "net": sched_net("c20_common_test.go", "c20_net_test.go"),
                           "server": sched("server_common_test.go", "c20_common_test.go", "c20_server_test.go", extra=[("ssh", "ssh/extra_commands.go")])}),
    "C13": dict(harnesses={"server": sched("server_common_test.go", "c13_main_test.go", extra=[("ssh", "ssh/extra_commands.go")])}),
    "C32": dict(harnesses={"client": sched("c32_main_test.go")}),
    "C27": dict(kind="E", level="exploration", quick_s=110, harnesses={"files": dict(pkg="schedule", files=["schedule/mp3_test.go", "schedule/c27_main_test.go"], level="none",
                                                                        extra=[("ssh", "ssh/extra_commands.go"), ("playback", "playback/extra_open.go")])}),
    "C29": dict(kind="E", level="fault_enumeration", harnesses={"files": dict(pkg="schedule", files=["schedule/mp3_test.go", "schedule/c29_main_test.go"], level="none",
                                                                             extra=[("comm", "comm/extra_wire.go"), ("playback", "playback/extra_open.go")])}),
    "C26": dict(kind="SE", harnesses={"session": dict(pkg="ssh", files=["ssh/c26_session_test.go"], level="none"),
                                     "commands": dict(pkg="schedule", files=["schedule/c26_common_test.go", "schedule/c26_commands_test.go"], level="none"),
                                     "server": sched("server_common_test.go", "c26_common_test.go", "c26_server_test.go", extra=[("ssh", "ssh/extra_commands.go")])}),
    "C21": dict(kind="SE", harnesses={"display": cmd_h("infoer", "c21_main_test.go", level="none", only=""),
                                      "refresh": cmd_h("infoer", "c21_sched_test.go", level="full", only="comm,timing,util,cmd/music-sync-infoer")}),
    "C22": dict(kind="SE", harnesses={"screen": cmd_h("infoer", "c22_main_test.go", only="timing"),
                                     "loop": cmd_h("infoer", "c22_loop_test.go", level="full", only="cmd/music-sync-infoer,timing")}),
    "C31": dict(kind="E", level="exploration", quick_s=100, harnesses={"server": cmd_h("server", "c31_common_test.go", "c31_server_test.go", level="none", only="", imports=""),
                                                                     "player": cmd_h("player", "c31_common_test.go", "c31_client_test.go", "c31_player_test.go"),
                                                                     "infoer": cmd_h("infoer", "c31_common_test.go", "c31_client_test.go", "c31_infoer_test.go", level="none", only="", imports="")}),
    "C33": dict(harnesses={"player": cmd_h("player", "c33_common_test.go", "c33_player_test.go", level="full", only="comm,timing,playback,schedule,util,cmd/music-sync-player",
                                           scale="playback:512=2,playback:32768=4", extra=[("ssh", "ssh/extra_commands.go")])}),
    "C34": dict(harnesses={"infoer": cmd_h("infoer", "c33_common_test.go", "c34_infoer_test.go", level="full", only="comm,timing,playback,schedule,util,cmd/music-sync-infoer",
                                           scale="playback:512=2,playback:32768=4", extra=[("ssh", "ssh/extra_commands.go")])}),
    "C36": dict(kind="E", harnesses={"ssh": dict(pkg="ssh", files=["ssh/c36_sessions_test.go"], level="none"), "clients": dict(pkg="schedule", files=["schedule/c36_gone_test.go"], level="none", extra=[("comm", "comm/extra_wire.go"), ("comm", "comm/extra_server.go"), ("ssh", "ssh/extra_commands.go")])}),
    "C35": dict(harnesses={"server": sched_net("server_common_test.go", "c35_main_test.go", only="schedule,playback,timing,util,comm", scale="playback:512=2,playback:32768=4",
                                               extra=[("comm", "comm/extra_wire.go"), ("comm", "comm/extra_server.go"), ("ssh", "ssh/extra_commands.go")])}),
    "C37": dict(kind="E", quick_s=160, harnesses={"sessions": dict(pkg="ssh", files=["ssh/c37_main_test.go", "ssh/c37_keys_test.go"], level="none")}),
    "C38": dict(kind="E", quick_s=120, harnesses={"infoer": cmd_h("infoer", "c38_infoer_test.go", level="none", only="", imports="", extra=[("comm", "comm/extra_wire.go"), ("comm", "comm/extra_server.go")])}),
    "C39": dict(kind="SE", quick_s=40, harnesses={"faults": comm_s("server_common_test.go", "c39_accept_test.go"), "real": comm_e("c39_real_test.go"),
                                           "control": dict(pkg="ssh", files=["ssh/c39_shortage_test.go"], level="none")}),
}
