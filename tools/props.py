#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os, sys
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count('. ') <= 2, id
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mechanism, observe_at=observe, hook_needed=None)))
def m(name, where): return dict(name=name, where=where)
def st(name, meaning, where): return dict(name=name, meaning=meaning, where=where)

prop("C01", "Listener reports are bracketed, uniquely named and bounded by the pool",
 "For every listener name a reporter sees strictly alternating activations and deactivations, both carrying the frequency of the same attachment, and every decoded callsign, spot and spot timeout lies between the two and carries that frequency. No two listeners that are active at the same time share a name or a signal, and never more than 30 listeners (1 in decode mode) are active; every reporter that was added sees the same sequence of reports for each listener.",
 ["histories", "schedules", "inputs"], "all signal histories, timeout settings, VFO moves and stop/start points of a receiver",
 "The only listener test checks the ID pool; no test runs a receiver. Reports come from several goroutines over arbitrary signal histories.",
 ["rx/receiver.go", "rx/listener.go"],
 [m("ListenerPool", "rx/listener.go BindNext/Release/Reset"), m("Listener.Attach/Detach", "rx/listener.go"), m("reporter fan-out", "rx/receiver.go")],
 ["rx.Reporter callbacks"], [st("pool", "bound listeners and free names", "rx/listener.go ListenerPool")])

prop("C02", "Each detected signal is taken at most once and retried only after 2 minutes",
 "A newly detected signal is offered for listening, a signal that is being listened to is never dropped from the table nor offered again, and a released signal is neither offered nor re-entered until it expired, which happens only when at least two minutes have passed since it was last put in the table as new; a signal that is new or released expires at the first clean-up after that time. A signal that overlaps a listened-to or released one is ignored, a signal that overlaps only new ones replaces them.",
 ["histories", "inputs"], "all sequences of detections, activations, releases, clean-ups and time steps over any table size",
 "The table tests use six fixed put/clean-up sequences on one table; interleavings of detection, release and expiry are not covered.",
 ["rx/peaks.go", "rx/receiver.go"],
 [m("PeaksTable.Put/Activate/Deactivate/Cleanup/FindNext", "rx/peaks.go")],
 ["PeaksTable Get/FindNext", "listener activations of a receiver"], [st("bins", "peak per frequency bin with state and time", "rx/peaks.go")])

prop("C03", "Strain listeners are released exactly when a timeout is exceeded",
 "In strain mode a listener is released with the first processed block after either no character was decoded for longer than the silence timeout or it has been attached for longer than the attachment timeout, and never earlier. In decode mode no timeout ever releases a listener.",
 ["histories", "configurations"], "all keying/silence histories and all timeout settings",
 "No test exercises listener timeouts; they need minutes of (virtual) time and particular signal histories.",
 ["rx/listener.go", "rx/receiver.go", "rx/text_processor.go"],
 [m("Listener.TimeoutExceeded", "rx/listener.go"), m("release in Receiver.run", "rx/receiver.go")],
 ["rx.Reporter ListenerDeactivated"])

prop("C04", "A receiver can be started, used and stopped at any moment without hanging",
 "Start, Stop, every setting and query and IQ delivery may be called in any order and concurrently on a receiver (other than from its own reports), before, during and after it runs; each call returns and none panics. When Stop returns, every active listener has been reported deactivated and nothing is reported any more, and a stopped receiver can be started again with a different rate and block size.",
 ["schedules", "histories"], "all call sequences and all interleavings of stop with processing, IQ delivery, settings and decoding",
 "No test runs a receiver at all; the races need particular interleavings.",
 ["rx/receiver.go", "rx/listener.go", "rx/text_processor.go"],
 [m("Receiver.Start/Stop/do/run", "rx/receiver.go"), m("TextProcessor.Start/Stop/run", "rx/text_processor.go")],
 ["return of each call", "rx.Reporter callbacks"])

prop("C05", "Spots are announced only with enough evidence and the best supported call wins",
 "During one attachment each accepted occurrence of a callsign is reported as decoded with its running count and its weight (1 if the call is exactly in the supercheck data, else 0); a spot is reported right after it exactly when some call has count plus weight of at least 3, and it names a call with the largest such sum. When the named call differs from the one named before, a timeout for the earlier one is reported first.",
 ["histories", "inputs"], "all sequences of decoded callsigns in all orders, with and without supercheck data",
 "The tests feed a handful of single-call texts, and offline they panic; competition between calls is not tested.",
 ["rx/text_processor.go", "rx/listener.go"],
 [m("TextProcessor.collectCallsign/bestMatch", "rx/text_processor.go")],
 ["CallsignReporter callbacks"], [st("collectedCallsigns", "count and weight per call", "rx/text_processor.go")])

prop("C06", "Callsigns in the decoded text are found once, however the text arrives",
 "Every callsign (of up to 40 characters) in the decoded text that follows a blank is reported exactly once, complete with its prefix and suffix, independent of how the text is split into writes; a callsign at the very end of the text is reported once nothing was written for more than 5 seconds. Calls with an unknown DXCC prefix and the known false positives are dropped, and missing DXCC or supercheck data disables only the respective filter.",
 ["inputs", "histories"], "all texts of callsigns, words and noise, all splits into writes, all pauses",
 "The window tests use four fixed fragments; decoded text really arrives character by character.",
 ["rx/text_processor.go"],
 [m("textWindow.Write/Shift/FindNext", "rx/text_processor.go"), m("findNextCallsign/writeTimeout", "rx/text_processor.go")],
 ["CallsignReporter.CallsignDecoded"], [st("window", "recent text with search point", "rx/text_processor.go")])

prop("C07", "Every attachment starts from scratch",
 "After restarting a text processor or attaching a listener, the reports and the decoded text are a function of what arrives from then on: no text, call count, best call, partial character or pending work of the previous attachment influences them. The same holds for a Morse decoder after a reset.",
 ["histories", "schedules"], "all histories before the restart combined with all histories after it",
 "Tests always start with fresh objects.",
 ["rx/text_processor.go", "rx/listener.go", "cw/decode.go"],
 [m("TextProcessor.Restart", "rx/text_processor.go"), m("Listener.Attach", "rx/listener.go"), m("Decoder.Reset", "cw/decode.go")],
 ["CallsignReporter callbacks", "decoder output"])

prop("C08", "Receiver settings apply to present and future listeners, whenever they are made",
 "Silence timeout, attachment timeout, signal debounce and scope take effect for listeners that are already active and for all that are activated later, whether they are set before the start, while running, or between stop and start; peak threshold, edge width and center frequency take effect from the next processed blocks on.",
 ["histories", "configurations"], "all interleavings of settings with listener activations, starts and stops",
 "Settings are never exercised by a test on a running receiver.",
 ["rx/receiver.go", "rx/listener.go", "cw/spectral.go"],
 [m("Receiver.Set*", "rx/receiver.go"), m("Receiver.newListener", "rx/receiver.go")],
 ["scope frames", "rx.Reporter callbacks"])

prop("C09", "IQ intake never blocks and processes accepted blocks unaltered and in order",
 "Delivering IQ data to a receiver returns immediately; a block is processed exactly once, with the values that were delivered and in delivery order, unless its rate or size do not match the receiver or 100 accepted blocks are waiting already. A block is never processed in parts.",
 ["schedules", "inputs"], "all delivery rates, backlogs, wrong sizes and wrong rates",
 "No test delivers IQ data.",
 ["rx/receiver.go"],
 [m("Receiver.IQData", "rx/receiver.go"), m("bounded queue", "rx/receiver.go Start")],
 ["scope spectral frames", "return of IQData"])

prop("C10", "Rolling statistics depend only on the last n values; reception recovers",
 "Mean and variance over a rolling window of n values are those of exactly the last n values put in (zeros for values not yet put in, all zeros again after a reset), whatever came before, including infinite values; sums, extrema, mean, variance and lookup of a rolling history are those of the requested most recent values. A receiver therefore detects and decodes signals again after its statistics window has passed beyond any gap of zero samples.",
 ["histories", "inputs"], "all sequences of values, including infinities, all window sizes, all positions of a reset",
 "The tests use short fixed sequences of finite values and no reset in between.",
 ["dsp/dsp.go", "rx/receiver.go"],
 [m("RollingMean", "dsp/dsp.go"), m("RollingVariance", "dsp/dsp.go"), m("RollingHistory", "dsp/dsp.go")],
 ["Put/Get/Sum/Max/Min/Mean/Variance results", "listener activations after a gap"])

prop("C11", "The active listener and text output follow the VFO",
 "In decode mode each VFO move leaves exactly one active listener, on the VFO frequency, and only text decoded for it since the move is printed. In strain mode text is printed only while a listener is active on the signal at the VFO frequency, and only that listener's text; without one nothing is printed.",
 ["histories"], "all sequences of VFO moves, center moves, signal appearances and listener releases",
 "No test sets a VFO.",
 ["rx/receiver.go"],
 [m("Receiver.SetVFOOffset", "rx/receiver.go"), m("ChannelWriter", "rx/receiver.go"), m("Peak.ContainsBin", "dsp/fft.go")],
 ["standard output of a receiver", "rx.Reporter callbacks"])

prop("C12", "Regularly keyed Morse text is decoded exactly",
 "Text of characters of the Morse table, keyed into a freshly reset decoder with standard 1:3:7 timing at a constant speed of 4, 5, 6, 7 or 8 ticks per dit (about 14 to 28 words per minute with the standard tick of 10.7 ms) and followed by silence, is decoded to exactly that text, for every text, with one blank between words and between transmissions (and possibly one before the first).",
 ["inputs"], "all texts, all dit lengths of 4 to 8 ticks, speeds in between with marks and gaps rounded to whole ticks",
 "Recorded streams sample a few texts; the adaptive thresholds depend on the whole history.",
 ["cw/decode.go"],
 [m("Decoder.Tick", "cw/decode.go"), m("AdaptiveThreshold", "cw/decode.go")],
 ["decoder output"])

prop("C13", "Any keying is segmented into known characters, unknown marks and blanks",
 "Whatever the key does, the output consists of characters of the Morse table, blanks and the unknown marker only. A mark or gap shorter than two ticks is ignored; every other one is classified by comparing its duration with thresholds that adapt only to the marks or gaps respectively, up to and including this one. A character is complete at a character or word gap, after eight marks, or after a silence of ten times the gap threshold; it is then output exactly once, as the character of its dit/dah sequence if all of its marks were classified and the sequence is in the table, and as the unknown marker otherwise; if none of its marks could be classified, it yields nothing and does not affect later characters.",
 ["inputs", "histories"], "all on/off sequences",
 "Tests use a few synthetic and recorded key streams.",
 ["cw/decode.go"],
 [m("Decoder.onRisingEdge/onFallingEdge/decodeCurrentChar", "cw/decode.go"), m("AdaptiveThreshold.Put", "cw/decode.go")],
 ["decoder output per tick"], [st("currentChar", "marks since the last character gap", "cw/decode.go")])

prop("C14", "The debounced signal changes only after it was stable for the set time",
 "With a threshold of N of at least 2 the debounced state changes to a value exactly when that value was observed N times in a row, and otherwise stays as it was; with a threshold below 2 it is the raw state. This holds for every raw sequence and every threshold, also through both demodulators.",
 ["inputs", "configurations"], "all raw sequences and thresholds",
 "One test with one threshold and one sequence.",
 ["dsp/dsp.go", "cw/spectral.go", "cw/audio.go"],
 [m("BoolDebouncer.Debounce", "dsp/dsp.go")],
 ["Debounce results", "decoder output"])

prop("C15", "The audio demodulator depends only on the samples, not on how they arrive",
 "The decoded text is a function of the sequence of first-channel samples and the settings: splitting the audio differently into writes changes nothing, with c channels exactly every c-th sample counts, and a setting that was made is returned by its getter and used for all later blocks. Close returns, outputs the character that is pending, and every later or concurrent call returns.",
 ["inputs", "schedules"], "all splits into writes, channel counts, settings changes and close points",
 "The tests write whole recordings in one call and close at the end.",
 ["cw/audio.go", "dsp/dsp.go"],
 [m("AudioDemodulator.Write/run/do/Close", "cw/audio.go")],
 ["decoder output", "getters"])

prop("C16", "Peak detection returns exactly the maximal runs above the threshold",
 "The peaks of a spectrum are exactly the maximal runs of bins whose average magnitude exceeds the threshold, in ascending order and including runs that touch an edge, each with the first bin of its largest value and the frequencies of its edges. The section operations sum, mean, maximum and contains of blocks and peaks consider exactly the requested bins, and the noise floor is the smallest mean of the consecutive sections of a tenth of the width between the edges.",
 ["inputs"], "all spectra, thresholds, cumulation counts and edge widths",
 "Three fixed spectra are tested.",
 ["dsp/fft.go"],
 [m("FindPeaks", "dsp/fft.go"), m("FindNoiseFloor", "dsp/fft.go"), m("Block.Max/Sum/Mean", "dsp/fft.go"), m("Peak.ContainsBin", "dsp/fft.go")],
 ["returned peaks"])

prop("C17", "Bins and frequencies are mapped consistently",
 "The center frequency of every bin maps back to this bin, a frequency maps to the bin that contains it within half a bin, and frequencies outside of the band map to the nearest edge bin; neighbouring bins are one bin width apart and the middle bin lies at the center frequency, also after the center frequency changed.",
 ["inputs", "configurations"], "all sample rates, block sizes, center frequencies, bins and frequencies",
 "One mapping with six bins is tested.",
 ["dsp/fft.go"],
 [m("FrequencyMapping.BinToFrequency/FrequencyToBin", "dsp/fft.go")],
 ["mapping results"])

prop("C18", "A callsign is announced at most once per silence period and frequency",
 "A spot is sent to the telnet clients exactly if no spot of the same callsign on the same kilohertz was sent within the silence period before it, judged by the spots' own timestamps; a suppressed spot does not prolong the silence. Every announced line carries the reporter call, frequency, callsign, message and UTC time of its spot.",
 ["histories", "inputs", "configurations"], "all sequences of spots of several calls, frequencies, timestamps and silence periods",
 "One test checks the format of one message.",
 ["telnet/telnet.go"],
 [m("Server.Spot/shouldAnnounce/registerSpot", "telnet/telnet.go")],
 ["lines received by telnet clients"])

prop("C19", "Every connected telnet client gets every announcement exactly once, in order",
 "Each client that is connected when a spot is announced and keeps reading receives the complete line exactly once and in the order of announcement, regardless of how many other clients connect, disconnect or break at the same time.",
 ["schedules", "histories", "fault_sequences"], "all sequences of connects, disconnects and spots with any number of clients",
 "No test connects a client.",
 ["telnet/telnet.go"],
 [m("Server.run broadcast and removal", "telnet/telnet.go"), m("Connection.run/Write", "telnet/telnet.go")],
 ["bytes received by telnet clients"])

prop("C20", "Broken telnet clients and shutdown never block spotting",
 "A telnet client that stops reading, vanishes or floods the server delays spotting and the other clients by a bounded time only and is dropped. Stopping the server returns, disconnects all clients and frees its port, and spotting during and after the stop returns.",
 ["fault_sequences", "schedules", "crash_points"], "all points at which clients stop reading or vanish, and all stop points",
 "No test connects a client or stops a server.",
 ["telnet/telnet.go"],
 [m("Server.Stop/run", "telnet/telnet.go"), m("Connection.Close/Write/readLoop", "telnet/telnet.go")],
 ["return of Spot/Stop/Write/Close", "socket state"])

prop("C21", "The telnet dialogue follows the login protocol for every input split",
 "A new client is greeted with the version and asked for its callsign; the first line that it sends, however it is split into packets, is answered with a welcome that repeats it, and every later line with an empty line. Announcements never tear these answers apart.",
 ["inputs", "histories"], "all splits of the input into packets and interleavings with announcements",
 "No test connects a client.",
 ["telnet/telnet.go"],
 [m("Connection.startPrompt/parseAnswerByte", "telnet/telnet.go")],
 ["bytes received by telnet clients"])

prop("C22", "Scope streams are gapless, and slow viewers never disturb others",
 "Each scope stream delivers a contiguous run of the frames shown since it was opened, in order; a stream whose buffer of unread frames is full when a frame is shown is ended, and neither the program nor the other streams are blocked, skipped or ended by that. The frames keep their stream name, time, values and markers.",
 ["schedules", "histories"], "all numbers of streams, reading speeds and orders of overflow",
 "The tests use one or two streams and one overflow.",
 ["scope/server_grpc.go", "scope/server.go", "scope/client.go"],
 [m("sendFrameToStreams/addStream/removeStream", "scope/server_grpc.go")],
 ["frames received per stream"])

prop("C23", "The scope server can be started, used and stopped at any moment",
 "Showing frames never blocks or panics, whether the scope server is not started, starting, running, stopping or stopped; when it stops, every stream ends and opening a stream fails or ends, and the address is free again. A server that stopped can be started again.",
 ["schedules", "histories"], "all interleavings of start, stop, show, open stream",
 "One start/stop and one idle-stop test.",
 ["scope/server.go", "scope/server_grpc.go"],
 [m("ScopeServer.Start/Stop/Show*", "scope/server.go"), m("grpcServer.run/getFrameStream/SendFrame", "scope/server_grpc.go")],
 ["return of each call"])

prop("C24", "The KiwiSDR client survives every connection loss and close",
 "Opening a KiwiSDR connection sends authentication, set-up and tuning in this order, then a keepalive every 5 seconds; whatever the server does, and wherever the connection breaks or is closed, no call hangs or panics, the connection is closed in the end, and nothing is delivered afterwards.",
 ["fault_sequences", "schedules", "crash_points"], "all points of read errors, write errors, server errors and close calls",
 "The tests decode four messages; no connection is ever opened.",
 ["kiwi/client.go", "kiwi/kiwi.go"],
 [m("Client.readLoop/writeLoop/Close/send", "kiwi/client.go")],
 ["messages seen by the server", "return of Open/Close"])

prop("C25", "KiwiSDR messages are interpreted faithfully and IQ data passed on unaltered",
 "Connected is reported exactly once, with the first valid audio rate the server announced; after it each sound message is delivered exactly once with exactly its samples, in order, in storage that later messages do not change. Unknown, malformed and short messages are ignored, as is sound that does not fill whole blocks of the receiver, and the announcements that the server is busy, down or refuses the password end the connection.",
 ["inputs", "histories"], "all sequences of well-formed and malformed messages",
 "Four messages are tested in isolation.",
 ["kiwi/client.go", "kiwi/kiwi.go"],
 [m("decodeConfigurationMessage/decodeIQMessage", "kiwi/client.go"), m("Process.IQData", "kiwi/kiwi.go")],
 ["KiwiHandler callbacks"])

prop("C26", "The TCI display and the spotter mirror the receiver's reports",
 "With the display switched on, a decode marker is shown on the TCI device exactly for every active listener, at its frequency, and a spot marker for every spotted callsign until its timeout; with it switched off no marker is ever added. Every spotted callsign is forwarded to the spotter with its call, its frequency and the UTC time of the spot, in order. A lost connection or a device that stops answering delays the reports, but loses none of the spots.",
 ["histories", "configurations"], "all sequences of listener and spot reports and display settings",
 "The tci package has no tests.",
 ["tci/tci.go"],
 [m("Process.ListenerActivated/.../SpotTimeout", "tci/tci.go")],
 ["commands seen by the TCI server", "Spotter calls"])

prop("C27", "Only data of the selected TRX and VFO A reach the receiver, complete and ordered",
 "Center frequency, VFO and IQ data of the selected TRX are applied, those of other TRX and of VFO B are ignored; each IQ packet is passed on completely, in order and in four equal parts. On every connect the IQ stream of the selected TRX is started at 48 kHz and the stored settings are applied.",
 ["inputs", "histories"], "all sequences of TCI messages for all TRX and VFOs",
 "The tci package has no tests.",
 ["tci/tci.go"],
 [m("tciListener.SetDDS/SetIF/IQData", "tci/tci.go"), m("Process.onConnected", "tci/tci.go")],
 ["listener frequencies", "commands seen by the TCI server"])

prop("C28", "Closing a TCI process always completes and cleans up the display",
 "Close stops the IQ stream and returns at every moment, with any backlog of pending reports and any number of active listeners, and also when called repeatedly; the markers of all listeners that were active are removed.",
 ["schedules", "histories"], "all backlogs and interleavings of reports with close",
 "The tci package has no tests.",
 ["tci/tci.go"],
 [m("Process.Close/run/doAsync", "tci/tci.go")],
 ["return of Close", "commands seen by the TCI server"])

prop("C29", "Host arguments are parsed the same way for names, IPv4 and IPv6",
 "A host argument of the forms host, host:port, :port, [v6], [v6]:port and empty yields the given host and port, with the default host or default port for the part that is missing; a malformed or out-of-range port is an error, not a silent default. The KiwiSDR client connects to exactly this address.",
 ["inputs"], "all combinations of the argument's grammar",
 "No test parses an argument.",
 ["cli/cli.go", "kiwi/client.go"],
 [m("ParseTCPAddrArg/splitHostPort", "cli/cli.go"), m("Client.connect", "kiwi/client.go")],
 ["returned address or error", "dialled addresses"])

prop("C30", "Keyed signals in an IQ stream end up as spots at the right frequency",
 "A CW signal that is present in the IQ stream above the threshold within the observed band is detected, listened to and decoded, and a callsign that it sends often enough is spotted at the signal's frequency within one bin; bins below the threshold or in a stream of noise never produce a listener. This holds for every bin, for several signals at once, and after the center frequency changed.",
 ["inputs", "histories", "configurations"], "all signal positions, combinations of signals and keyed texts",
 "No test covers the path from IQ data to a spot.",
 ["rx/receiver.go", "dsp/fft.go", "cw/spectral.go", "cw/decode.go", "rx/text_processor.go"],
 [m("Receiver.run pipeline", "rx/receiver.go")],
 ["rx.Reporter callbacks"])

prop("C31", "The program does what its command line says",
 "sdrainer strain tci, strain kiwi, decode tci and decode pulse connect to the given host or audio source with the given TRX, user name, password, center frequency, bandwidth and sample rate; every flag that is set takes effect, and every other one has its documented default: the detection threshold, the debounce threshold, the silence and busy timeouts, the telnet port and reporter callsign, the period after which a callsign is announced again, the display of listeners and spots, the scope server, the audio pitch, preset speed, scale and magnitude threshold. Callsigns that are heard often enough are announced to every connected telnet client at their absolute frequency, in decode mode the text at the VFO frequency or pitch is printed. A start that is impossible (telnet port taken, invalid host, unknown flag, invalid value, KiwiSDR or PulseAudio server not reachable, unknown source) ends with exit code 1, a TCI device that is not reachable is waited for.",
 ["inputs", "configurations", "histories"], "all command lines with all signals and orders of connections and silences",
 "The cmd package has no tests.",
 ["cmd/root.go", "cmd/strain.go", "cmd/decode.go", "cmd/tci.go", "cmd/kiwi.go", "cmd/pulse.go", "kiwi/kiwi.go", "tci/tci.go", "telnet/telnet.go"],
 [m("runStrainTCI/runDecodeTCI", "cmd/tci.go"), m("runStrainKiwi", "cmd/kiwi.go"), m("runPulse", "cmd/pulse.go"), m("kiwi.New", "kiwi/kiwi.go")],
 ["commands seen by the devices", "standard output", "telnet clients", "exit code"])

prop("C32", "The program ends on request at every moment and leaves nothing behind",
 "After it has started, and while it waits for its TCI device, SIGINT, SIGTERM, SIGHUP and SIGQUIT end the program with exit code 0 within seconds: whatever signals are being received and decoded, however many telnet clients are connected, whether the clients read or not, and whether the device still answers. The IQ stream of the TCI device is stopped, the markers of all listeners are removed from its display, the telnet clients are disconnected, and the ports are free again.",
 ["schedules", "histories"], "all moments of the signal in all states of the program",
 "The cmd package has no tests.",
 ["cmd/root.go", "cmd/tci.go", "cmd/kiwi.go", "cmd/pulse.go", "tci/tci.go", "kiwi/kiwi.go", "telnet/telnet.go", "rx/receiver.go"],
 [m("runWithCtx/handleCancelation", "cmd/root.go"), m("runStrainTCI/runDecodeTCI", "cmd/tci.go")],
 ["exit code", "commands seen by the devices", "telnet clients"])

def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
if __name__ == "__main__":
    main()
