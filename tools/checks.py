"""What each check runs. See DESIGN.md."""


def flip(e):
    o = e["o"]
    if isinstance(o, bool):
        return not o
    return None


def model(module, graph=None, mc=True):
    r = []
    if mc:
        r.append(dict(module="MC_" + module, cfg=f"MC_{module}.cfg"))
    if graph:
        r.append(dict(module="MC_" + module, cfg=f"G_{module}.cfg", graph=graph))
    return r


def trace(file, module, falsify):
    return dict(file=file, module="Trace_" + module, cfg=f"Trace_{module}.cfg", falsify=falsify)


def bad_line(e):
    return dict(e["o"], msg=e["o"]["msg"] + "?") if e["i"]["op"] == "recv" else None


def bad_conn(e):
    return dict(e["o"], w=e["o"]["w"] + [7])


TELNET_SERVER = dict(module="TelnetServer", cfg="TelnetServer.cfg", cfg_thorough="TelnetServer_thorough.cfg")

def bad_report(e):
    return e["o"][1:] if e["o"] else None


def text(part):
    return [dict(module="MC_TextProcessor", cfg=f"MC_Text{part}.cfg"),
            dict(module="MC_TextProcessor", cfg=f"G_Text{part}.cfg", graph="text" + part.lower())]


TEXT = [trace("text.ndjson", "TextProcessor", bad_report)]

DECODER = dict(module="MC_Decoder", cfg="MC_Decoder.cfg", cfg_thorough="MC_Decoder_thorough.cfg", workers=1)
DECODER_GRAPH = dict(module="MC_Decoder", cfg="G_Decoder.cfg", graph="decoder", workers=1)
DECODER_TRACE = trace("decoder.ndjson", "Decoder", lambda e: e["o"] + [[1, 32]])


def bad_rx(e):
    return dict(e["o"], ev=e["o"]["ev"][1:]) if e["i"]["op"] == "feed" and e["o"]["ev"] else None


def bad_rx_tci(e):
    return dict(e["o"], ev=e["o"]["ev"][1:]) if e["i"]["op"] == "iq" and e["o"]["ev"] else None


RECEIVER_TRACE = [trace("rx.ndjson", "Receiver", bad_rx)]


def receiver(scenario):
    return dict(module="MC_Receiver", cfg=f"G_Rx{scenario}.cfg", graph="rx" + scenario.lower())


SCOPE = dict(pkg="scope", files={f"scope/{n}_verif_test.go": f"overlay/scope/{n}_verif_test.go" for n in ("scope", "life")})

TCI_DISPLAY = [trace("tcidisplay.ndjson", "TciDisplay", lambda e: dict(e["o"], sp=e["o"]["sp"] + [[1, 1]]))]
TCI = [dict(file="tci.ndjson", module="Trace_Tci", cfg="Trace_Tci_strain.cfg", falsify=bad_rx_tci)]

CHECKS = {
    "C02": dict(pkg="rxt", test="TestC02", models=model("PeaksTable", "table"),
                traces=[trace("table.ndjson", "PeaksTable",
                              lambda e: [-1, -1, 99] if e["i"]["op"] == "find" else None)],
                note="complete state graph of a table with 3 bins walked on the real table; random tables up to 12 bins validated by TLC"),
    "C04": dict(pkg="rxt", test="TestC04$", shards=8,
                models=[dict(module="RxLife", cfg="RxLife.cfg"), dict(module="RxLife", cfg="RxLifeReturns.cfg", cfg_thorough="RxLifeReturns_thorough.cfg"),
                        receiver("Lives"), receiver("Decodelives")],
                traces=[trace("calls.ndjson", "RxCalls", lambda e: 7 if e["i"]["op"] == "ret" and e["i"]["c"] == "get" else None)],
                note="model of locks, channels and goroutines checked for returning calls and refinement of the sequential view; graph of lives in both modes walked; storms of concurrent calls validated against the sequential view"),
    "C05": dict(pkg="rxt", test="TestC05", models=text("Spot"), traces=TEXT,
                note="graph of all evidence for 3 competing calls (with and without reference data) walked; random texts validated"),
    "C06": dict(pkg="rxt", test="TestC06", models=text("Scan"), traces=TEXT,
                note="graph of all texts with words of up to 5 characters over letter, digit, slash, blank and other, in all splits, "
                     "and of the write timeout walked; random texts validated"),
    "C07": dict(pkg="rxt", test="TestC07", 
                models=text("Hold") + [DECODER, DECODER_GRAPH, dict(module="MC_Decoder", cfg="G_DecoderDeb.cfg", graph="decoderdeb", workers=1)],
                traces=TEXT + [DECODER_TRACE],
                note="graph of restarts with up to 3 pending writes and a busy user of the reports walked; graphs of keyings with restarts walked on "
                     "decoder, demodulator and listener; random texts and keyings validated"),
    "C12": dict(pkg="cwt", test="TestC12",
                models=[dict(module="MC_Timing", cfg="MC_Timing.cfg"), dict(module="MC_Jitter", cfg="MC_Jitter.cfg", cfg_thorough="MC_Jitter_thorough.cfg")],
                traces=[trace("keying.ndjson", "Keying", lambda e: e["o"][:-1])],
                note="all thresholds that regular marks and gaps can lead to are enumerated on the specification of the decoder, for every text; "
                     "random texts, speeds and roundings on the real decoder and demodulator validated"),
    "C13": dict(pkg="cwt", test="TestC13",
                models=[DECODER, DECODER_GRAPH], traces=[DECODER_TRACE],
                note="graph of sequences of short, regular and overlong marks and gaps walked on decoder and demodulator; random keyings validated"),
    "C14": dict(pkg="dspt", test="TestC14",
                models=[dict(module="MC_Debounce", cfg="MC_Debounce.cfg"),
                        dict(module="MC_Debounce", cfg="G_Debounce.cfg", graph="debounce")],
                traces=[dict(file="debounce.ndjson", module="Trace_Debounce", cfg="Trace_Debounce.cfg",
                             falsify=lambda e: flip(e) if e["i"]["op"] == "raw" else None)],
                note="state graph of the debouncer walked on the plain debouncer and through both demodulators; random "
                     "sequences and thresholds up to 13 validated by TLC"),
    "C09": dict(pkg="rxt", test="TestC09", shards=8, models=[dict(module="MC_RxFeed", cfg="G_RxFeed.cfg", graph="rxfeed")],
                traces=[trace("rxfeed.ndjson", "RxFeed", lambda e: e["o"] + [[0, 1, 1]] if e["i"]["op"] == "give" else None)],
                note="graph of deliveries of right and wrong blocks to a running, stuck, and stopped receiver walked on the real one, each processed "
                     "block identified by its level; random deliveries validated"),
    "C10": dict(pkg="dspt", test="TestC10", models=model("Rolling", "rolling"),
                traces=[trace("rolling.ndjson", "Rolling", lambda e: dict(e["o"], v=e["o"]["v"] + 1) if e["i"]["op"] == "put" else None)],
                note="state graph of all windows of 1 and 3 values (incl. infinities and absorbing values) walked on mean, variance and history"),
    "C15": dict(pkg="cwt", test="TestC15",
                models=[dict(module="MC_AudioDemod", cfg="MC_AudioDemod.cfg", cfg_thorough="MC_AudioDemod_thorough.cfg")] +
                       [dict(module="MC_AudioDemod", cfg=f"G_Audio{p}.cfg", graph="audio" + p, workers=1) for p in ("split", "settings", "close")],
                traces=[trace("audio.ndjson", "AudioDemod", lambda e: {"text": e["o"]["text"] + [63]} if isinstance(e["o"], dict) else None)],
                note="graphs of writes cut inside of blocks and channels, of all settings, and of closes while calls wait, walked in virtual time; "
                     "random audio, splits and settings validated"),
    "C16": dict(pkg="dspt", test="TestC16", models=[dict(module="MC_Spectrum", cfg="MC_Spectrum.cfg", graph="spectrum")],
                traces=[trace("spectrum.ndjson", "Spectrum", lambda e: e["o"] + [e["o"][0]] if e["o"] else None)],
                note="all spectra of up to 5 bins and 4 magnitudes are enumerated by TLC and executed; larger random ones validated"),
    "C17": dict(pkg="dspt", test="TestC17", models=model("FreqMap", "freqmap"),
                traces=[trace("freqmap.ndjson", "FreqMap", lambda e: e["o"] + 7 if e["i"]["op"] == "bin" else None)],
                note="exact rational mapping model; its graph walked, random rates, sizes and frequencies validated"),
    "C18": dict(pkg="tnt", test="TestC18", models=[dict(module="MC_Telnet", cfg="MC_Telnet.cfg", cfg_thorough="MC_Telnet_thorough.cfg")],
                traces=[trace("telnet.ndjson", "Telnet", bad_line)],
                note="real server on loopback: random calls, frequencies, time zones and times around the silence period; every received line "
                     "is validated by TLC"),
    "C19": dict(pkg="tnt", test="TestC19", models=[dict(module="MC_Telnet", cfg="MC_Telnet.cfg", cfg_thorough="MC_Telnet_thorough.cfg"), TELNET_SERVER],
                traces=[trace("telnet.ndjson", "Telnet", bad_line)],
                note="goroutines and channels as a model with liveness; real server with clients that come and go in every way, validated by TLC"),
    "C20": dict(pkg="tnt", test="TestC20", models=[dict(module="MC_TelnetConn", cfg="MC_TelnetConn.cfg", graph="telnetconn"), TELNET_SERVER],
                traces=[trace("telnet.ndjson", "Telnet", bad_line), trace("telnetconn.ndjson", "TelnetConn", bad_conn)],
                note="complete state graph of a connection (stuck, broken, half closed, closed, concurrent close) walked in virtual time; "
                     "real server with clients that stop reading"),
    "C21": dict(pkg="tnt", test="TestC21", models=[dict(module="MC_TelnetConn", cfg="MC_TelnetConn.cfg", graph="telnetconn")],
                traces=[trace("telnet.ndjson", "Telnet", bad_line), trace("telnetconn.ndjson", "TelnetConn", bad_conn)],
                note="complete state graph of the dialogue with byte level splits; real sockets with announcements in between"),
    "C22": dict(overlay=SCOPE, test="TestC22",
                models=[dict(module="MC_Scope", cfg="MC_Scope.cfg"),
                        dict(module="MC_Scope", cfg="G_Scope.cfg", graph="scope3"), dict(module="MC_Scope", cfg="G_Scope2.cfg", graph="scope2")],
                traces=[trace("streams.ndjson", "ScopeStreams", lambda e: e["o"] + "?" if e["i"]["op"] == "recv" and e["o"] not in ("nothing", "ended") else None)],
                note="graphs of all histories of 3 streams with a buffer of 1 and 2 streams with a buffer of 2 walked on the real server; "
                     "what fast, slow and leaving viewers receive over TCP validated"),
    "C23": dict(overlay=SCOPE, test="TestC23",
                models=[dict(module="ScopeServer", cfg="ScopeServer.cfg"), dict(module="MC_Scope", cfg="MC_Scope.cfg"),
                        dict(module="MC_ScopeLife", cfg="G_ScopeLife.cfg", graph="life"), dict(module="MC_Scope", cfg="G_ScopeStop.cfg", graph="stop")],
                note="all interleavings of the calls and goroutines of the server checked on a process model; graph of its life as seen by "
                     "user and viewers walked on the real server, including starts on an address in use and storms of concurrent calls"),
    "C24": dict(pkg="kwt", test="TestC24", models=[dict(module="MC_KiwiConn", cfg="G_KiwiConn.cfg", graph="conn")],
                note="graph of the connection with every point of loss, rejection, broken reads or writes, stalled server and close walked on "
                     "the real client in virtual time"),
    "C25": dict(pkg="kwt", test="TestC25", models=[dict(module="MC_KiwiMsg", cfg="G_KiwiMsg.cfg", graph="msg"),
                                                   dict(module="MC_KiwiFeed", cfg="G_KiwiFeed.cfg", graph="feed")],
                traces=[trace("kiwi.ndjson", "KiwiMsg", lambda e: e["o"][1:] if e["o"] else None),
                        trace("feed.ndjson", "KiwiFeed", lambda e: e["o"][1:] if e["o"] else None)],
                note="graphs of all orders of valid, invalid, rejecting and malformed messages walked on the real client, and of whole and broken "
                     "sound messages on the real process with its receiver; random messages validated"),
    "C01": dict(pkg="rxt", shards=8, test="TestC01", models=[receiver("Reports")],
                traces=RECEIVER_TRACE, note="graph of activations, decoded calls, releases, stops and a busy user walked on the real receiver, with text and reports decoded from IQ data; random behaviours of up to 34 signals validated"),
    "C08": dict(pkg="rxt", shards=8, test="TestC08", models=[receiver(x) for x in ("Silences", "Debounces", "Tuning", "Scopes")],
                traces=RECEIVER_TRACE, note="graphs of settings before, between and after starts, with the threshold, edges, debounce, timeouts, center and scope that are in effect observed, walked on the real receiver; random behaviours validated"),
    "C11": dict(pkg="rxt", shards=8, test="TestC11", models=[receiver(x) for x in ("Vfos", "Tracking")],
                traces=RECEIVER_TRACE, note="graphs of VFO moves, signals and releases in both modes walked, with the text on the standard output; random behaviours validated"),
    "C03": dict(pkg="rxt", shards=8, test="TestC03", models=[receiver("Timeouts"), receiver("Expiry"), receiver("Decoding")],
                traces=RECEIVER_TRACE, note="graphs of all moments of text, ticks of the clock and processed blocks around both timeouts, and of signals that are forgotten, walked on the real receiver in both modes; random behaviours validated"),
    "C30": dict(pkg="rxt", test="TestC30", shards=8, models=[], traces=RECEIVER_TRACE,
                note="random behaviours of the whole path from IQ data to spots: carriers and keyed texts in every bin of the band, alone and together, in and off the centers of the bins, over fixed and Gaussian noise, with retunings, gaps in the stream and VFO changes, all validated against the specification Receiver"),
    "C26": dict(pkg="tcit", test="TestC26", shards=8,
                models=[dict(module="MC_TciDisplay", cfg="MC_TciDisplay.cfg"), dict(module="MC_TciDisplay", cfg="G_TciDisplay.cfg", graph="tcidisplay"),
                        dict(module="MC_Tci", cfg="G_Tci_display.cfg", graph="tciwhole")],
                traces=TCI_DISPLAY + TCI,
                note="graphs of reports, connections that are lost or hang, and display settings walked on the real process with and without its receiver, "
                     "against a device that answers or is silent; random reports, backlogs, and signals validated"),
    "C27": dict(pkg="tcit", test="TestC27", shards=8,
                models=[dict(module="MC_Tci", cfg=f"G_Tci_{x}.cfg", graph="tci" + x) for x in ("messages", "settings", "decode")],
                traces=TCI + [dict(TCI[0], file="tcidecode.ndjson", cfg="Trace_Tci_decode.cfg")],
                note="graphs of messages about all TRX and VFOs, of settings before, during, and between connections, and of both modes walked on the real "
                     "process with its receiver, with the data of other TRX, rates and kinds in between; random behaviours validated"),
    "C28": dict(pkg="tcit", test="TestC28", shards=8,
                models=[dict(module="MC_TciDisplay", cfg="MC_TciDisplay.cfg"), dict(module="MC_TciDisplay", cfg="G_TciClose.cfg", graph="tciclose"),
                        dict(module="MC_Tci", cfg="G_Tci_close.cfg", graph="tciwhole")],
                traces=TCI_DISPLAY + TCI,
                note="graphs of closes at all moments of the connection, with backlogs and active listeners, walked on the real process against a device "
                     "that answers, is silent, or hangs; random behaviours validated"),
    "C29": dict(pkg="clit", test="TestC29",
                models=[dict(module="MC_HostArg", cfg="MC_HostArg.cfg"), dict(module="MC_HostArg", cfg="G_HostArg.cfg", graph="hostarg"),
                        dict(module="MC_HostArg", cfg="G_HostArgTci.cfg", graph="hostargtci")],
                traces=[trace("hostarg.ndjson", "HostArg", lambda e: dict(e["o"], port=e["o"]["port"] + 1))],
                note="all combinations of hosts, ports and defaults of the argument grammar executed on the parser and on what the KiwiSDR and TCI clients "
                     "dial; random arguments validated"),
    "C31": dict(pkg="progt", test="TestC31", shards=8, binary=True, confirm=True,
                models=[dict(module="MC_Program", cfg="MC_Program.cfg")],
                traces=[trace("program.ndjson", "Program", lambda e: dict(e["o"], ended=True) if "ended" in e["o"] else None)],
                note="the built program run with random command lines against a TCI device, a KiwiSDR, a PulseAudio server, and telnet clients, "
                     "with keyed signals, silences, signals that never end, impossible starts, and all signals that end it; all runs validated"),
    "C32": dict(pkg="progt", test="TestC32", shards=8, binary=True, confirm=True,
                models=[dict(module="MC_Program", cfg="MC_Program.cfg")],
                traces=[trace("program.ndjson", "Program", lambda e: dict(e["o"], code=2) if "code" in e["o"] else None)],
                note="the built program ended by all signals at random moments of its life: waiting for its device, connecting, listening to many "
                     "signals at once, decoding, with telnet clients that come, read, or do not; all runs validated"),
}
