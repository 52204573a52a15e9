#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties are maintained here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe,
         "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SRV = "internal/server/server.go"; SES = "internal/server/session.go"; WR = "internal/webrtc/webrtc.go"
WM = "internal/webrtc/recorder/webm.go"; REC = "internal/webrtc/recorder/recorder.go"; EV = "internal/pubsub/events/events.go"
DEC = "internal/pubsub/events/decode.go"; LK = "internal/webrtc/livekit/livekit.go"
JB = "internal/webrtc/utils/jitter_buffer.go"; RL = "internal/webrtc/utils/receive_log.go"; NK = "internal/webrtc/utils/nack.go"
SU = "internal/webrtc/utils/sequence_unwrapper.go"; SB = "internal/webrtc/utils/send_buffer.go"; IVF = "internal/webrtc/recorder/ivfwriter.go"
LOOP = "build tag verif: gather ICE candidates on the loopback interface (the sandbox has no other)"

p("C01", "Every start request is answered exactly once, before anything else",
  "Every startRecording request that can be decoded gets exactly one startRecordingResponse with its recordingSessionId: either status ok with an SDP answer (empty for LiveKit), the absolute path of the recording and no error, or status failed with a non-empty error and neither SDP nor file name. This holds for valid requests (adapter given or omitted, offer in the legacy or the adapterOptions field, the latter having precedence) and for invalid ones (unknown adapter, missing, garbled or unacceptable offer, refused file, session id in use). No recordingRtpStatusChanged or recordingStopped of a session is published before its response, and none at all for a request that failed.",
  ["inputs", "histories", "schedules"], "all decodable start requests, in any order and mix with other messages and with the media and transport events of the sessions they create",
  "The unit tests only check the validation function on a handful of literals; no test ever publishes a request, opens a transport or observes responses, so neither duplicated/missing answers nor ordering against status events are sampled.",
  [SRV, SES, EV, WR], [("request dispatch and response", SRV), ("answered gate that holds back status events", SES), ("validation of requests", EV)],
  ["messages published on the response channel"], [("sessions", "active sessions by id", SRV)], LOOP)

p("C02", "A session id belongs to one active recording at a time",
  "While a recording is active, any other start request with the same recordingSessionId is refused and leaves the active recording undisturbed: its media keeps being recorded into its own file and it can still be stopped. As soon as that recording has ended - recordingStopped was published, or its own start failed - the same id can be used for a new recording. Nothing that belongs to an ended recording (late transport events, repeated stops) stops, removes or reports anything about a newer recording with the same id.",
  ["histories", "schedules"], "all histories of start, stop, duplicate start, failed start and transport loss over shared session ids",
  "No existing test creates sessions at all; id reuse depends on the order of transport callbacks and control messages.",
  [SRV, SES], [("session table lookup, insertion and conditional removal", SRV), ("session end", SES)],
  ["responses and events per id", "recordings on disk", "sessions gauge"], [("sessions", "active sessions by id", SRV)], LOOP)

p("C03", "Every recording ends with exactly one recordingStopped, after its file",
  "Every recording that was started successfully and then ends - stopRecording, loss or close of its transport, or several of these at once - publishes exactly one recordingStopped with its session id, and nothing else about that session is published afterwards until its id is started again. When recordingStopped is published the recording is finalised: the file does not change any more and contains every frame that was written, and timestampHR is the media time in milliseconds of its last frame (0 if there is none). stopRecording for an unknown or already ended session publishes nothing.",
  ["histories", "schedules", "fault_sequences"], "all interleavings of stop requests (including duplicates), transport shutdown by the peer, media in flight, and ends before any media",
  "There is no test of sessions, stops or transport callbacks; the race between a stop and the closing transport only shows under specific schedules.",
  [SRV, SES, WR, WM], [("a session ends once", SES), ("closing of the recording", WM), ("transport state and track end callbacks", WR)],
  ["messages on the response channel", "the file at the time of the message and later"], [("stopped", "the session ended", SES)], LOOP)

p("C04", "No message on the control channel can take the service down",
  "Whatever is published on the control channel - not JSON5, wrong types, missing or null fields, unknown ids, events that only the recorder sends, binary data, huge or deeply nested messages - the service keeps running and keeps serving the messages which follow, and active recordings are not affected. Messages that are not a decodable startRecording, stopRecording or getRecorderStatus request cause no publication at all. A start request with hostile contents (e.g. a malformed SDP offer) is refused, and only that request fails.",
  ["inputs", "histories"], "all byte strings as messages, alone or interleaved with valid requests",
  "Unit tests decode a few well-formed literals; malformed input, panics inside the transport set-up and their effect on the process are never exercised.",
  [DEC, EV, SRV, "internal/webrtc/signal/signal.go", WR], [("tolerant decoding", DEC), ("validation", EV), ("recovery around transport set-up", SRV)],
  ["process liveness", "messages on the response channel"], None, None)

p("C05", "The recorder reports its status when it appears and whenever asked",
  "Each time the recorder gets subscribed to its control channel it publishes exactly one recorderStatus, and it publishes exactly one more for every getRecorderStatus request it receives. Each carries the application version and the instance id, which is a non-empty value that never changes during the life of the process and differs between processes, and a timestamp in milliseconds since the epoch. It is answered also while recordings are active, starting or ending, and in the order the requests were made relative to other requests' responses.",
  ["histories", "schedules"], "all numbers and positions of status requests among other messages; all subscriptions, including those after losing redis",
  "No test runs the application or its subscription.",
  [SRV, EV, "internal/app/app.go", "internal/pubsub/redis.go"], [("status on subscription and on request", SRV)], ["messages on the response channel"], None, None)

p("C06", "The sessions gauge equals the number of active recordings",
  "Whenever no request or transport shutdown is being processed, the exported recorder_sessions gauge equals the number of recordings that were started successfully and did not end yet. Failed starts, duplicate starts, duplicate stops, stops of unknown sessions and transport losses that race with stops never make it drift, and it is never negative.",
  ["histories", "schedules"], "all histories of starts, failed starts, stops, duplicate requests and transport losses",
  "No test reads the metric or runs a session; drift accumulates over histories.",
  [SES, SRV, "internal/prometheus/prometheus.go"], [("increment on start", SES), ("decrement once at the end", SES)], ["HTTP /metrics"], None, LOOP)

p("C07", "A failing recording does not harm the service or other recordings",
  "Whatever happens to one recording - its directory disappears, the file cannot be created, the disk or a file size limit is hit in the middle, its peer sends malformed VP8, Opus or RTP, or its transport dies - the process survives, requests keep being answered, and every other recording is completed intact as if the failing one did not exist. The failing recording itself can still be stopped and then publishes its recordingStopped, and what its file received before the failure remains readable.",
  ["fault_sequences", "inputs", "schedules"], "all file system faults at any time of a recording and all media payloads, in any of several concurrent sessions",
  "No test injects I/O errors or malformed media, or runs two sessions side by side.",
  [WM, REC, IVF, WR, SES], [("I/O error containment of the output", WM), ("safe parsing of payloads", WM)], ["process liveness", "responses", "recordings of the other sessions"], None, LOOP)

p("C08", "Ended sessions release everything they held",
  "After a session ended, or its start failed, the goroutines, file descriptors and UDP ports it used are released, so that any number of sessions can be recorded one after the other: once all sessions have ended their number returns to what it was before, independently of how many sessions there were. This holds however sessions end: stop with or without media ever received, transport loss, a peer that never connects, refused starts.",
  ["histories"], "all sequences of sessions with any kind of end",
  "Leaks only show by comparing process resources over many complete sessions, which no test creates.",
  [WR, SES, LK, WM], [("transport release", SES), ("end of per-track goroutines", WR), ("file close", WM)], ["/proc of the process", "Go runtime metrics"], None, LOOP)

p("C09", "Sequence numbers are unwrapped to the nearest continuation",
  "For any stream of 16-bit sequence numbers, each unwrapped value is congruent to its sequence number modulo 65536 and lies within half a cycle of the newest (highest) value before it; consecutive packets across a wrap-around therefore get consecutive values, late packets get smaller values than the newer ones before them, and repeating a number gives the same value. Values are never negative: where the nearest candidate would be, the numbering continues one whole cycle higher from there on.",
  ["inputs", "histories"], "all sequences of 16-bit numbers (any gaps, reordering across the wrap-around, duplicates, any start value)",
  "The unit tests check eight short literal sequences; the arithmetic has boundary cases at every wrap-around and half-cycle distance.",
  [SU], [("unwrapping arithmetic", SU)], ["values returned"], None, None)

p("C10", "Received packets reach the recording in order, once, and without loss",
  "Packets that arrive out of order, duplicated or late are handed over to the recording in strictly increasing sequence order, each at most once and with the contents received, including across sequence number wrap-around and starting at any number. A packet is handed over as soon as, and not before, everything between it and the previously handed over one was handed over, was given up on or timed out; only packets which arrive after their turn, or are left behind the newest by the size of the jitter buffer or more, are dropped. Missing packets never stall the stream for good.",
  ["inputs", "histories"], "all arrival orders, duplications, losses, skip requests, buffer sizes and time-outs",
  "The unit tests push four hand-made sequences; the state space of arrival orders, wrap-arounds and time-outs is not sampled.",
  [JB, WR], [("jitter buffer", JB), ("reader loop", WR)], ["packets handed over", "frames in the recording"], None, LOOP)

p("C11", "Retransmission is requested for exactly the missing packets, boundedly",
  "While a track is received, every packet missing within the tracked window, and no packet that was received or is newer than the newest received or was given up on, is reported missing, and the NACK messages built from such a list name exactly its members. The recorder thus asks the sender for the packets which are missing - and never for those that arrived - at most 10 times each (not counting what the WebRTC stack itself asks for), so a lost packet whose retransmission arrives in time is recorded. Sequence number wrap-around, reordering and duplicates do not change this.",
  ["inputs", "histories", "schedules"], "all arrival sequences over 16-bit numbers, window sizes, and lists of missing numbers",
  "The unit tests cover a few literal sequences; window eviction, wrap-around and list encoding have unbounded combinations, and no test sends RTCP.",
  [RL, NK, WR], [("receive log", RL), ("NACK encoding", NK), ("NACK loop with attempt limit", WR)], ["lists returned", "NACK packets received by the peer"], None, LOOP)

p("C12", "Only intact frames are recorded: complete, unaltered, in order, once",
  "Every video frame in a recording is byte for byte a frame that was sent: all the payload of all its packets in order, and nothing else - never a truncated frame, a mixture of two frames, or one with a hole, whatever was lost, reordered, duplicated or malformed on the way. Frames appear in the order they were sent, each at most once. The same holds for the audio packets of a recording.",
  ["inputs", "histories", "fault_sequences"], "all frame sizes and packetisations, payload descriptor forms, loss/reorder/duplication/skip patterns, both sample builders",
  "No test covers the recorder at all; the depacketiser's decisions depend on combinations of start bits, markers, picture ids, gaps and skip notifications.",
  [WM, WR, JB], [("frame assembly and discarding", WM), ("built-in sample builder", WM), ("skip notification", WR)], ["frames parsed back from the WebM file"], [("frame in progress", "payload collected so far", WM)], LOOP)

p("C13", "Without loss, everything from the first keyframe on is recorded",
  "If no packet is lost for good (reordering, duplication and losses which are recovered within a second are allowed) a video recording contains every frame from the first complete keyframe after its tracks have started up to the last frame completely received before the stop. The audio of a recording contains every audio packet received since the recording started, even if some others are lost, but for those still waiting in the reordering queue at the stop. This is so for any frame size and packetisation, with or without picture ids (7 or 15 bits), and with any wrap-around of sequence numbers, timestamps and picture ids in the middle. A track that starts while another is being recorded makes the file start over, at the next keyframe, with both.",
  ["inputs", "histories", "configurations"], "all lossless streams of decodable VP8 frames of at least 10 bytes (keyframe dimensions 16 to 8192) and Opus packets, both sample builders; video frames of at most 10 MB which, with the builtin builder, take less than half its packet queue",
  "No test feeds the recorder; completeness over wrap-arounds and packetisations needs a reference model of the stream.",
  [WM, WR, JB, SU], [("start at a keyframe once the tracks are known", WM), ("frame assembly", WM)], ["frames parsed back from the WebM file"], None, LOOP)

p("C14", "After losing data, recording resumes at a keyframe, which is requested",
  "With the default sample builder, when data of a frame is lost for good nothing is recorded until the next complete keyframe, except that frames are recorded without interruption where consecutive picture ids prove that no frame is missing - nor are frames of which picture ids (of 15 bits) tell that others are missing before them; from that keyframe on everything is recorded again. Whenever the recorder waits for a keyframe - at the start or after a loss - it requests one from the publisher upon the next frame, but (with the mediasoup adapter) never more often than once per second on top of a request every 3 seconds while a video track is being received. Keyframes are always usable as restarting points, whatever preceded them.",
  ["inputs", "fault_sequences", "histories"], "all positions and lengths of losses relative to frame boundaries, keyframes and picture id wrap-arounds",
  "Needs a model of which frames are decodable after a loss, over all loss positions; nothing in the tests loses a frame.",
  [WM, WR, LK], [("loss detection by sequence number, picture id and skip signal", WM), ("keyframe requests with rate limit", WM), ("periodic PLI", WR)], ["frames parsed back", "keyframe requests / PLI received by the publisher"], None, LOOP)

p("C15", "The timeline of each track is that of its RTP timestamps",
  "The media time of a video frame in a recording is the RTP time elapsed since the first recorded frame, to the millisecond (at most 1 ms of rounding), however irregular the frame rate, whatever was dropped in between (if less than a whole cycle of the timestamps) and across wrap-around of the 32-bit timestamp; it never goes backwards. The same holds for audio packets relative to the first recorded one. Errors do not accumulate over the length of a recording.",
  ["inputs", "histories"], "all sequences of timestamps increasing by less than half the 32-bit range (recordings shorter than the muxer's limits), with losses, in audio-only, video-only and combined recordings",
  "No test writes a file, let alone a long one with a wrap-around or losses.",
  [WM], [("timestamp arithmetic", WM)], ["block times parsed back from the WebM file"], None, LOOP)

p("C16", "Audio and video of a recording stay aligned",
  "In a recording with audio and video the first video frame is at time 0 and the first audio packet is placed at the time that passed, since the recording started, until it was received (within 100 ms, plus the time for which the jitter buffer held back either track at that moment); from there on both tracks follow their own RTP clocks, so their offset stays constant however long the recording is and whatever is lost. Audio received before the recording started is not in it. If the recording starts over because a track appears later, both timelines start over too.",
  ["histories", "schedules", "inputs"], "all interleavings of audio and video, start order and delay of tracks, losses in either",
  "No test has two tracks.",
  [WM], [("alignment of the first audio sample", WM), ("restart", WM)], ["block times of both tracks parsed back"], None, None)

p("C17", "Recordings are valid WebM files which describe their contents",
  "Every finalised recording that received a frame is a well-formed WebM file: the header, segment information with millisecond time scale, exactly the tracks which were present - VP8 video with the dimensions of the keyframe it starts with, Opus audio at 48 kHz with 2 channels - and clusters in which every block belongs to a declared track, times do not decrease within a track, and a video block is flagged as a keyframe exactly if it is one. The first video block is a keyframe. A session which never received a recordable frame leaves no file.",
  ["inputs", "configurations", "histories"], "all combinations of tracks, dimensions, packetisations, losses, restarts and both sample builders",
  "No test produces a file.",
  [WM, REC], [("writer initialisation", WM), ("keyframe flag", WM)], ["the file, with an independent parser"], None, None)

p("C18", "A recording is readable up to the last moments before a crash",
  "If the recorder process is killed at any time, the file of a recording in progress is a readable prefix of a valid WebM file: its header and track descriptions are complete if anything was written, and every complete block in it is an intact frame, in order. Frames received well before the kill - all but those in the reordering and interleaving queues - are in the file.",
  ["crash_points"], "all instants at which the process may be killed during a recording, in any of several concurrent recordings",
  "Tests never kill a process which is recording.",
  [WM], [("unbuffered live-mode writing of clusters", WM)], ["the file after SIGKILL"], None, LOOP)

p("C19", "IVF copies contain the recorded video frames",
  "With IVF copies enabled, every recording with video has, next to it, an IVF file with exactly the video frames of the WebM file, in the same order and byte for byte, and its header has the VP8 format, the dimensions of the recording's keyframes, a 90 kHz time base and the number of frames; the time of a frame is its RTP timestamp. It has the configured file mode and never replaces an existing file (there is no copy then). Without the option (and when recording to the null device) there is no such file.",
  ["inputs", "configurations", "fault_sequences"], "all recordings (losses, restarts, both sample builders) with the option on or off",
  "No test writes an IVF file.",
  [IVF, WM], [("IVF writer", IVF)], ["the IVF file against the WebM file"], None, None)

p("C20", "Recordings are created where requested, safely, and never overwrite",
  "A recording is only ever written to the requested .webm name inside the configured directory: names with other extensions or which would leave the directory are refused, as is a missing directory, a name that exists or one that another active session uses; subdirectories in the name are created. Files and directories get the configured modes (subject to the umask). No existing file is ever truncated, replaced or removed, even if it appears after the request was accepted; and with the null device option no file or directory is created at all.",
  ["inputs", "configurations", "histories"], "all file names (relative, absolute, with any dots, separators and odd characters), mode settings, and files that appear at any time",
  "No test covers the preparation of files; path tricks and appearing files are not sampled.",
  [REC, WM, IVF], [("name validation and reservation", REC), ("exclusive creation", WM)], ["the directory tree before and after", "responses"], None, None)

p("C21", "Media status events follow the media",
  "For each track, recordingRtpStatusChanged flowing is published when its packets start to reach the recording and not_flowing when they pause, alternately and starting with flowing: at any time flowing events of a session exceed its not_flowing events by at least 0 and at most its number of tracks. Media that starts or resumes is reported within 2 seconds and a pause within 4 seconds, a steady stream causes no further events, and timestampHR never exceeds the media time reached.",
  ["histories", "schedules"], "all patterns of media activity and pauses on one or two tracks",
  "No test runs a track's status monitor.",
  [WR, LK, SES, EV], [("per-track monitor", WR), ("publication", SES)], ["messages on the response channel against the media sent"], None, LOOP)

p("C22", "Configuration precedence and reload",
  "The effective value of every setting is the one of its BBBRECORDER_ environment variable if set, else the one in the configuration file, else the default, independently for each setting, and --dump prints it for any setting whose value is not empty, zero or false. On SIGHUP the configuration is read again and applies to recordings started afterwards without disturbing active ones. A configuration that cannot be read at that moment leaves the current one in effect, with the process running.",
  ["configurations", "inputs", "histories"], "all subsets of settings given in the file and in the environment, and reloads with valid or invalid files at any time",
  "No test loads a configuration.",
  ["internal/config/config.go", "internal/config/loader.go", "internal/app/config.go", "internal/app/app.go"], [("defaults, file and environment loading", "internal/config/loader.go"), ("reload", "internal/app/app.go")], ["--dump output", "behaviour of sessions before and after SIGHUP"], None, LOOP)

p("C23", "The HTTP page answers each offer with its own answer",
  "Each SDP offer posted to the test page's HTTP endpoint starts its own recording and is answered with the answer to that very offer, however many are posted at the same time; an offer which is refused gets an error status, and requests that are not a POST with a body are rejected with 422. Responses to other clients' sessions, malformed messages on the channel and offers that are never answered neither crash the service nor block or mix up other requests. Recordings are served under /media/ and nothing outside the recordings directory is.",
  ["schedules", "inputs"], "all concurrent requests with valid and invalid bodies, and all messages on the response channel",
  "No test starts the HTTP server.",
  ["internal/server/http.go"], [("pairing of responses and requests", "internal/server/http.go")], ["HTTP responses"], None, LOOP)

p("C24", "No data races in any workload",
  "No two goroutines of the recorder access the same memory without synchronisation, at least one of them writing, in any use of it: concurrent sessions with audio and video, losses and retransmissions, keyframe requests, status events, stops racing with media and with transport shutdown, reconnection, configuration reload, metrics and HTTP requests, with either adapter.",
  ["schedules", "histories"], "all interleavings of the goroutines of all sessions and of the service",
  "The tests are sequential unit tests of single functions and are not run with the race detector.",
  [WR, LK, WM, REC, JB, RL, SRV, SES, "internal/server/http.go", "internal/app/app.go", "internal/config/config.go"], [("mutexes and atomics of tracks, recorder, sessions and configuration", WR)], ["reports of the Go race detector"], None, LOOP)

p("C25", "The send buffer returns exactly the recent packets it was given",
  "After adding packets in increasing order of sequence numbers - with any gaps of less than half a cycle, and across wrap-around - looking up a number in the send buffer returns the packet added with that number if it is less than the buffer's size behind the newest one, and nothing otherwise: never another packet, one from a previous cycle, or one which was not added. Adding the newest packet again changes nothing. Sizes that are not powers of two are refused.",
  ["inputs", "histories"], "all in-order sequences of insertions and all look-ups for every supported size",
  "The unit test covers one size with two short literal sequences.",
  [SB], [("ring buffer", SB)], ["packets returned"], None, None)

p("C26", "LiveKit recordings give the same guarantees as mediasoup ones",
  "A start request for the livekit adapter joins the given room with the configured credentials, subscribes to exactly the requested tracks that exist in it, and records them with the same guarantees: intact frames in order, complete when nothing is lost, resumption at a keyframe which is requested after a loss, status events that follow the media, one response, and one recordingStopped. It ends on stopRecording, leaving the room, or when the server disconnects it. If the server cannot be reached or refuses, the request is answered as failed, and other requests are served afterwards.",
  ["histories", "inputs", "fault_sequences"], "all rooms and track sets, media patterns, and server disconnections",
  "No test covers the LiveKit adapter.",
  [LK, SRV, SES, WM], [("room, subscription and track handling", LK)], ["signalling requests at the server", "messages on the response channel", "the recording"], None, None)

p("C27", "Messages are delivered exactly once, in order, also across reconnection",
  "Each message published on the control channel while the recorder is subscribed is handled exactly once and in order, and each event that occurs while redis is reachable is published exactly once on the configured channel, those of one session in the order in which they happened. If the connection to redis is lost the recorder keeps recording, connects again, with the configured password, and then reports its status and serves requests as before. Only messages on its own channel are handled.",
  ["fault_sequences", "histories"], "all message sequences and all times and kinds of connection loss (closed connection, refused connections for a while, a connection which stays open in silence)",
  "No test uses a redis connection.",
  ["internal/pubsub/redis.go", "internal/pubsub/redis/redis.go", "internal/pubsub/pubsub.go"], [("subscription loop with reconnection", "internal/pubsub/redis.go"), ("publishing", "internal/pubsub/redis/redis.go")], ["commands received by the redis server"], None, None)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
