#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl and /verif/MANIFEST.json.

Run it after editing; both files are committed.  Nothing at check time reads this file.
"""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, state=None, observe=None, technique=None, note=None):
    d = {
        "id": id,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
        "_technique": technique,
        "_note": note,
    }
    assert len(title) <= 80, title
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)


# ---------------------------------------------------------------- buffers and plumbing
prop(
    "C01", "Ring buffer is a bounded FIFO that keeps the newest elements",
    "For every history of operations, a ring buffer of size n >= 1 behaves as a queue of at most n elements: Pop, TryPop, Peek, TryPeek and Read deliver exactly the stored elements in the order they were added, Read takes min(len(p), Len) of them and fails with io.EOF exactly when the buffer is empty and p is not. Push and Write always accept everything and discard exactly the oldest elements that no longer fit; Write reports len(p); TryPush on a full buffer returns false and changes nothing. Len, Size and the found/not-found results always agree with that queue.",
    ["histories", "configurations"],
    "all buffer sizes, all sequences of Push/TryPush/Pop/TryPop/Peek/TryPeek/Read/Write with slices of any length (empty, shorter, equal, longer than the buffer)",
    "The tests replay a few fixed sequences on small buffers; wrap position, fullness and slice length interact, so a wrong index shows only in particular histories.",
    ["ring/buffer.go"],
    [("read/write index with a full flag, two-part copy on wrap", "ring/buffer.go Read, Write, Push")],
    [("read, write, full", "positions and the full/empty disambiguation", "ring/buffer.go Buffer")],
    technique="model-based random operation sequences against a slice queue, shrunk",
    note="Histories of up to a few hundred operations on sizes 1..64; assumes no concurrent use (the type is documented as unsynchronised).",
)
prop(
    "C02", "FullFrames re-frames a stream losslessly into fixed-size frames",
    "For every sequence of writes, the destination receives exactly the input samples in order, cut into frames of exactly frameSize, each delivered during the write that completes it; Close delivers the remaining shorter tail (if any) as one frame and then closes the destination once, and errors from both steps are reported. The caller may reuse its slice after each write. If the destination rejects a frame, that write returns the error, the frame is not offered again, and all later samples are still delivered once and in order. Concurrent writes are delivered one after the other, each as a whole.",
    ["inputs", "histories", "fault_sequences", "schedules"],
    "all frame sizes, all write-length sequences including empty and multi-frame writes, all patterns of destination failures",
    "The tests use one or two fixed chunkings without failing destinations; chunk boundaries and a failing frame in the middle of a multi-frame flush are combinations they do not reach.",
    ["buffers.go"],
    [("pending buffer trimmed by a deferred function", "buffers.go flush")],
    technique="random write/fault histories against a reference framer",
    note="Also exercised with several sample element types; concurrent writers under the race detector.",
)
prop(
    "C03", "PCM16 serialisation and channel conversion are sample-exact",
    "CopyTo writes exactly two little-endian bytes per sample, reports that count, and returns io.ErrShortBuffer without claiming any bytes when the destination is shorter than Size. MonoToStereo duplicates every sample into both channels; StereoToMono yields for each pair the integer average of left and right computed without overflow (truncated toward zero), also when source and destination overlap at the same start, and both touch nothing beyond the converted samples and panic when the destination is too small. Clear zeroes every sample and WriteSample on a slice appends the data.",
    ["inputs"],
    "all int16 sample values (including extremes) and all slice lengths, destination sizes and in-place use",
    "No test feeds extreme sample pairs; int16 arithmetic that overflows is invisible on quiet audio.",
    ["pcm.go"],
    [("per-sample loops", "pcm.go CopyTo, MonoToStereo, StereoToMono")],
    technique="random inputs against an independent int64 reference, plus exhaustive pair boundary grid",
    note="All pairs of boundary values are enumerated on every run, the rest is sampled.",
)
prop(
    "C04", "File and dump writers store exactly the written bytes, or report an error",
    "A raw file writer that is written to and closed stores exactly the concatenation of the serialised samples, in order, and closes the underlying file exactly once; if any write to or the closing of the underlying file failed, some WriteSample call or Close returns an error, and what was stored is a prefix of that concatenation. A dump writer forwards every sample unchanged to the wrapped writer and additionally produces, in <name>_ar<rate>.<ext>, those same bytes. Samples that fail to serialise are reported and store nothing.",
    ["inputs", "fault_sequences"],
    "all sequences of samples of any size and type, all points at which the underlying writer fails or writes short",
    "There is no test for these writers; buffering and reuse of the scratch buffer depend on the sequence of sample sizes.",
    ["media.go", "dump.go"],
    [("bufio writer with a reusable scratch buffer", "media.go fileWriter"), ("MultiWriter of the original and the file", "dump.go DumpWriter")],
    technique="random sample-size/fault histories against byte concatenation",
    note="Dump files are created in a scratch directory that the check removes.",
)
prop(
    "C05", "In-memory sinks and sources copy data and preserve it exactly",
    "The frame sink keeps each written sample as its own frame, the buffer sink keeps the concatenation until it is closed and ignores later writes, the buffer source returns successive parts of its data (0 when exhausted), and the sample adaptor passes every frame on with the configured duration; in all of them, what was stored or forwarded is unaffected by the caller later modifying the slice it passed in, and the frames kept or passed on belong to their receiver, who may extend one without touching the others. The RTP packet buffer keeps for every write a private copy of the header (with its contributing sources and extensions) and of the payload and reports the payload length. Sample rates are reported as configured.",
    ["inputs", "histories"],
    "all sequences of samples of any length with the caller overwriting its buffers between calls",
    "Tests do not reuse the caller's buffer after a write, so aliasing would go unnoticed.",
    ["pcm.go", "rtp/rtp.go"],
    [("clone or append on write", "pcm.go frameWriterPCM16, bufferWriterPCM16, sampleWriter; rtp/rtp.go Buffer")],
    technique="random write histories with buffer scribbling against a copying model",
    note="Single caller per sink except the buffer sink, which is also written concurrently under the race detector.",
)
prop(
    "C06", "MultiWriter delivers every sample to every destination and reports failures",
    "Every WriteSample hands the sample to every destination exactly once and in order, even when some destinations fail, and returns a non-nil error (the last failing destination's) exactly when at least one failed. Close closes every destination exactly once under the same rule. The sample rate is the first destination's (0 when there is none), and an empty MultiWriter accepts writes.",
    ["inputs", "fault_sequences"],
    "all numbers of destinations and all patterns of failing writes and closes",
    "No test uses failing destinations, so an early return on the first error would pass.",
    ["media.go"],
    [("loop keeping the last error", "media.go MultiWriter")],
    technique="random fault matrices against a fan-out model",
    note="Destinations are recording stubs.",
)
prop(
    "C07", "Media pipe moves samples like io.Pipe: in order, lossless, no deadlock",
    "Samples written to a pipe are read exactly once and in order, whatever the sizes of writes and reads; a write returns only after all of its samples were read or one side was closed, and concurrent writes are never interleaved within one write. Closing either side, at any moment and any number of times, unblocks both: later reads return the writer's close error (EOF by default) and later writes return the reader's close error (io.ErrClosedPipe by default); the first close error of a side is kept. The behaviour of any history equals that of the standard io.Pipe on the same history.",
    ["schedules", "histories"],
    "all interleavings of reads, writes (one or several writers) and closes with or without errors, all write and read sizes including empty",
    "The tests cover a handful of fixed scripts; partial reads racing with a close are schedule-dependent.",
    ["pipe.go"],
    [("unbuffered hand-off channel and acknowledged length", "pipe.go read, write"), ("once-only done channel and kept first errors", "pipe.go closeRead, closeWrite")],
    technique="differential against io.Pipe on random scripts in virtual time, plus racing multi-writer stress",
    note="Scripts are made deterministic by virtual time; racing phases check conservation and atomicity of each write under the race detector.",
)
prop(
    "C08", "SwitchWriter routes each sample to the current destination, at its rate",
    "Each written sample is delivered to the destination attached at that moment and to no other; with nothing attached or while disabled it is dropped without error, and errors of the destination are returned. Swap returns the previously attached writer and never closes it; a destination with a different sample rate receives the stream resampled from the switch's rate; Close detaches and closes only the attached destination. With concurrent writes and swaps every sample reaches at most one destination, and none after the swap that detached it returned, other than writes already in progress.",
    ["histories", "schedules"],
    "all sequences and interleavings of Swap, Get, Enable, Disable, Close, SetSampleRate and WriteSample, equal and different sample rates",
    "No test attaches several destinations over time, uses the disable flag, or writes concurrently with a swap.",
    ["media.go"],
    [("atomic pointer to the destination", "media.go SwitchWriter Swap, Get, WriteSample, Close"), ("rate adaptation on attach", "media.go Swap")],
    technique="random histories against a routing model, plus concurrent swap stress under the race detector",
    note="The rate rules (0 panics, -1 delays, set once) are part of the model.",
)
# ---------------------------------------------------------------- signal processing
prop(
    "C09", "Resampling conserves the stream: total length and chunk independence",
    "For every supported pair of sample rates, a resampling writer that is closed has delivered in total the input length scaled by the rate ratio to within a couple of samples, whatever the lengths of the individual writes, and the delivered samples do not depend on how the input was cut into writes. Close flushes what is pending and closes the destination once; destination errors are reported to the writer. Concurrent writers, and closing meanwhile, lose nothing that was accepted, and what comes after the close is refused. Resample appends to its destination slice, keeping the existing prefix, produces what a writer would, and is the identity for equal rates.",
    ["inputs", "configurations", "histories", "schedules"],
    "all rate pairs among 8, 11.025, 12, 16, 22.05, 24, 32, 44.1 and 48 kHz, all chunkings including single samples and irregular lengths",
    "The tests use regular 20 ms frames of one recording; irregular chunks exercise the output sizing differently.",
    ["resample.go", "resample_soxr.go"],
    [("soxr stream with output buffer sized per write", "resample_soxr.go Resample"), ("frame-aligned flushing and final flush", "resample_soxr.go flush, Close")],
    technique="metamorphic (chunking invariance) and conservation checks over random rates, signals and chunkings",
    note="The cgo (soxr) implementation that this build uses; the pure-Go fallback is not built here.",
)
prop(
    "C10", "Resampling preserves the signal: frequency, level, polarity, alignment",
    "For a tone or a mix of tones below the lower of the two Nyquist frequencies, the resampled signal is the same signal sampled at the new rate: same frequencies, level and phase within a small tolerance (high signal-to-noise ratio against the analytically resampled tone) away from the stream's edges. A tone anywhere in the source's band adds no other frequencies: what the destination's rate cannot carry is removed and does not fold back (aliasing), and raising the rate adds no images. Silence stays silence and a constant stays that constant. Loud in-range input does not wrap around.",
    ["inputs", "configurations"],
    "all rate pairs, frequencies below 0.35 of the lower rate, amplitudes and phases",
    "The tests compare one recording with stored output for a few rate pairs.",
    ["resample.go", "resample_soxr.go"],
    [("soxr with fixed quality and int16 in and out", "resample_soxr.go newSoxr")],
    technique="random tones against the analytic resampled signal with an SNR threshold",
    note="Thresholds have a wide margin to the measured quality of the unchanged tree.",
)
prop(
    "C11", "G.711 conversion matches the standard for every value, in every path",
    "For every 8-bit code, A-law and mu-law decoding yield the value the G.711 standard assigns (16-bit scale), and for every 16-bit sample, encoding yields a code whose decoded value is, up to the encoder's 14-bit input resolution, nearest to the sample, has the sample's sign (zero aside), and re-encodes to an equal value; encoding is monotonic. The sample-slice methods, the to-buffer functions and the streaming encoder and decoder all give identical results for every length sequence, one output per input. Streaming decoders convert to the destination's sample rate; encoders refuse rates other than 8 kHz.",
    ["inputs", "histories"],
    "all 256 codes and all 65536 sample values of both laws (exhaustively), all frame-length sequences",
    "The tests check stored recordings; single table entries that occur rarely in speech are not covered.",
    ["g711/g711.go", "g711/ulaw.go", "g711/alaw.go"],
    [("lookup tables built at start-up", "g711/g711.go buildLinTable, buildLawTable"), ("reused output buffers", "g711/ulaw.go, g711/alaw.go")],
    technique="exhaustive enumeration against an independent G.711 reference, random framings for the streams",
    note="Both domains are enumerated completely on every run.",
)
prop(
    "C12", "G.722 streams keep sample count, state and fidelity for every framing",
    "The G.722 encoder emits one byte per two 16 kHz samples (per sample at 8 kHz) and the decoder the reverse, for every sequence of even-length frames; the coded and decoded streams do not depend on how the audio is cut into frames, and equal what one continuous G.722 codec instance produces. Decoding an encoded signal in the voice band reproduces it with the codec's fixed delay at a high signal-to-noise ratio, at level one. Destination errors are returned, and unsupported encoder rates are refused.",
    ["inputs", "histories"],
    "all signals, all even frame-length sequences including growing and shrinking, 16 kHz and 8 kHz modes, decoder destinations of other rates",
    "The test encodes one recording in equal frames; buffer reuse with changing lengths and state carry-over are not exercised.",
    ["g722/g722.go"],
    [("persistent codec state and size computation", "g722/g722.go Encoder, Decoder, encodeSize, decodeSize")],
    technique="chunking metamorphic relation and differential against a fresh codec instance, SNR of round trips",
    note="The G.722 library itself is trusted; what is checked is its use.",
)
prop(
    "C13", "Opus streams decode every frame, adapt channels, and tolerate bad packets",
    "Every frame of mono or stereo audio, of 20 ms or any other duration of an Opus packet (2.5 to 120 ms), encoded and then decoded yields exactly one frame of the same duration in the decoder's target channel layout, at any Opus sample rate, with the audio preserved; a mono packet for a stereo target carries identical left and right samples, and a stereo packet for a mono target carries the average of its channels, also when packets of both kinds alternate in one stream. Empty packets are ignored; up to five successive corrupt packets are skipped without an error or output, a sixth in a row is reported, and any good packet resets that allowance. Target layouts other than mono and stereo are refused, and destination errors are returned.",
    ["inputs", "histories", "fault_sequences"],
    "all packet sequences mixing mono, stereo, empty and corrupt packets, Opus rates 8 to 48 kHz, signals",
    "The tests decode one fixed stream per layout without corruption or layout changes.",
    ["opus/opus.go"],
    [("decoder reset on channel change", "opus/opus.go resetForSample"), ("successive error counter", "opus/opus.go WriteSample"), ("channel conversion", "opus/opus.go, pcm.go")],
    technique="random packet histories against a reference decoder and error-budget model",
    note="libopus is trusted as the reference for packet decoding.",
)
prop(
    "C14", "DTMF events survive encoding; malformed event payloads are rejected",
    "For every event with a valid code or digit, a 6-bit volume, any duration and end flag, decoding its encoding returns the same event with digit and code agreeing with the RFC 4733 table, in exactly four bytes; the digit takes precedence over the code, and buffers shorter than four bytes are refused unchanged. Decoding accepts every payload of at least four bytes, ignores extra bytes and the reserved bit, refuses shorter ones with an error, and never panics. The RTP form reports an event exactly for packets with the marker set and a decodable payload; Tone gives the code and the two keypad frequencies for each of the 16 digits and nothing for any other byte.",
    ["inputs"],
    "all events, all payload byte strings, all digits",
    "The tests use a few digits; flag and field bit patterns are a product space.",
    ["dtmf/dtmf.go"],
    [("bit packing", "dtmf/dtmf.go Encode, Decode"), ("keypad tables", "dtmf/dtmf.go eventFreq, eventToChar, charToEvent")],
    technique="round trip both ways and reference bit layout over enumerated and random events",
    note="Code, volume, end and all digits are enumerated; durations sampled with boundaries.",
)
prop(
    "C15", "DTMF digit strings are sent with correct timing, markers and timestamps",
    "For every string of digits and 'w', every digit is sent, in order, as RTP events every 20 ms that share one timestamp, with growing duration, the marker set only on the first, and the final event carrying the end flag and full duration three times; the matching dual tone is written to the audio writer for the same 250 ms (13 frames), silence otherwise, one 20 ms frame every 20 ms, with a pause of equal length after each digit and 0.5 s per 'w', and timestamps advance by the elapsed digit and pause durations from the start timestamp. Either output may be omitted without affecting the other. Cancelling the context stops output and returns its error, and write errors are returned immediately.",
    ["inputs", "fault_sequences"],
    "all strings over the 16 digits and 'w', all start timestamps, audio rates, cancellation instants and failing writes",
    "The test sends one digit string in real time to both outputs.",
    ["dtmf/dtmf.go", "rtp/rtp.go"],
    [("20 ms ticker state machine", "dtmf/dtmf.go Write"), ("same-timestamp writes and delays", "rtp/rtp.go WritePayloadAtCurrent, Delay")],
    technique="random digit strings and faults in virtual time against a timeline model",
    note="Virtual time (testing/synctest) makes pacing exact.",
)
prop(
    "C16", "Tone generation is the normalised sum of sines, continuous across frames",
    "Each generated sample equals amp times the mean of the sines of the given frequencies at the sample's time, to within rounding, never exceeding amp in magnitude; with no frequency the buffer is silence. The returned time is the start plus the duration, so generating consecutive buffers gives the same signal as generating one long buffer. All samples of the buffer are overwritten.",
    ["inputs"],
    "all frequency sets, amplitudes, start times, durations and buffer lengths",
    "The test listens to fixed tones only.",
    ["tones/tones.go"],
    [("phase from absolute time", "tones/tones.go Generate")],
    technique="random parameters against an analytic reference, plus split/concatenate relation",
    note="Times up to an hour; tolerance covers nanosecond rounding of the sample time.",
)
prop(
    "C17", "Looped tones follow their cadence, one frame every 20 ms, until cancelled",
    "Playing a list of tones writes one 20 ms frame every 20 ms: each entry's frequencies for its duration (rounded up to frames), then silence for its silence duration, entries in order and repeated forever, with entries without silence following each other directly. Frames are the sum of sines at the given volume with phase continuous in stream time, and have the writer's sample-rate length. Cancelling returns the context's error and nothing is written after it; a write error is returned at once.",
    ["inputs", "fault_sequences"],
    "all tone lists, durations, sample rates, cancellation instants and failing writes",
    "The test plays one preset in real time.",
    ["tones/tones.go"],
    [("ticker and tone/silence index", "tones/tones.go Play")],
    technique="random cadences in virtual time against a timeline model",
    note="Positive tone durations, as in the presets with a silence part.",
)
prop(
    "C18", "Audio playback is paced: one frame per period, in order, until done",
    "Playing a list of frames writes each frame exactly once, unchanged and in order, the k-th not before k periods after the start and, while the writer keeps up, exactly then, and returns nil right after the last. Cancelling the context stops promptly with its error and nothing is written afterwards; a write error stops playback and is returned. An empty list returns at once.",
    ["inputs", "fault_sequences", "schedules"],
    "all frame lists, periods, cancellation instants, slow or failing writers",
    "There is no test of pacing or cancellation.",
    ["pcm.go"],
    [("ticker loop", "pcm.go PlayAudio")],
    technique="random playlists and faults in virtual time against a timeline model",
    note="Virtual time makes pacing exact.",
)
# ---------------------------------------------------------------- RTP
prop(
    "C19", "RTP streams share one gapless sequence and consistent timestamps",
    "All packets written through one sequence writer, from any number of streams and goroutines, carry one SSRC and sequence numbers that increase by exactly one per successfully written packet (modulo 2^16), a failed write consuming none; each carries its stream's payload type, marker and payload. A stream's timestamp starts at 0, advances by its packet duration per payload (rate/50) and by the requested amount for delays, stays constant for same-time payloads until a delay, and follows an explicit reset. A stream that fell behind the newest stream by more than 25 of its packets jumps to that newest timestamp, otherwise streams keep their own.",
    ["histories", "schedules", "fault_sequences"],
    "all operation sequences over several streams, concurrent writers, failing writes; timestamps without 32-bit wrap-around (documented as unsupported)",
    "The tests script five fixed two-stream patterns, without failures or concurrency.",
    ["rtp/rtp.go"],
    [("shared header and sequence under a mutex", "rtp/rtp.go WriteEvent"), ("newest-timestamp catch-up", "rtp/rtp.go CurTS"), ("follow-up flag", "rtp/rtp.go Stream")],
    technique="random multi-stream histories with faults against a reference model, racing writers under the race detector",
    note="Timestamps below 2^31.",
)
prop(
    "C20", "RTP mux hands each packet to the handler registered for its payload type",
    "Each packet is handed, unchanged and exactly once, to the handler most recently registered for its payload type, else to the default handler, else dropped without error; the handler's error is returned. Registering nil restores the default for that type, later registrations replace earlier ones, and types 0..127 are independent of each other. Registration during traffic takes effect atomically; a nil mux drops everything.",
    ["histories", "schedules"],
    "all sequences of Register, SetDefault and HandleRTP over all payload types, also concurrent",
    "No test exercises the mux.",
    ["rtp/mux.go"],
    [("static array and dynamic map under a lock", "rtp/mux.go")],
    technique="random histories against a map model, concurrent registration stress under the race detector",
    note="",
)
prop(
    "C21", "The RTP handling loop delivers every packet in order and closes once",
    "The loop hands every packet read, in order, to the handler until the first read or handler error, returns exactly that error, and closes the handler exactly once, after the last packet was handled. Incoming media streams write exactly each packet's payload to their writer and return its error; outgoing media streams send each sample as one packet without marker at the stream's next timestamp. A nil handler function and a no-op closer accept everything.",
    ["inputs", "fault_sequences"],
    "all packet sequences and all positions of read and handler errors",
    "No test drives the loop or the media stream adaptors with errors.",
    ["rtp/rtp.go"],
    [("read-handle loop with deferred close", "rtp/rtp.go HandleLoop"), ("adaptors", "rtp/rtp.go MediaStreamIn, MediaStreamOut")],
    technique="random packet and fault sequences against a trace model",
    note="",
)
prop(
    "C22", "Jitter buffer emits only whole frames, in order, without duplicates",
    "For every arrival order, loss, duplication and timing of packets of a continuous stream, every emitted frame consists of consecutively numbered packets from a frame start to the next frame end with padding packets removed, each packet exactly as pushed with its receive time, no sequence number is ever emitted twice, and sequence numbers increase across all emitted frames, including across 16-bit wrap-around. A packet older than what was already emitted is never emitted. Flush emits the complete frames in order, discards the rest and leaves the buffer empty; after a jump of the sequence numbers by more than 3000 ahead, the stream continues with the new numbers.",
    ["inputs", "histories", "schedules"],
    "all packet arrival sequences and timings, frame sizes, initial sequence numbers, latencies, padding, flushes and latency changes",
    "The tests push a few fixed permutations; the linked-list insertion has many position/wrap/discontinuity cases.",
    ["jitter/buffer.go", "jitter/packet.go"],
    [("ordered linked list insertion with serial arithmetic", "jitter/buffer.go push"), ("complete-frame detection", "jitter/packet.go isComplete")],
    technique="random arrival histories in virtual time, invariants over everything emitted",
    note="Streams whose reordering spread is below 3000 packets (the buffer's own discontinuity threshold).",
)
prop(
    "C23", "Jitter buffer loses nothing in time, bounds delay, and accounts for loss",
    "A complete frame is emitted at once when everything before it was emitted, and otherwise as soon as the missing packets arrive, or when its first packet is older than the configured latency, never later; so a packet that arrives within the latency of the frames waiting for it is never lost, and reordering within the latency loses nothing. Incomplete frames are discarded only once older than the latency. The statistics report exactly the pushed, padding, lost (numbers skipped), dropped (late, duplicate or incomplete), popped packets and popped frames, Size is the number held, and the loss callback reports those totals whenever packets are lost or dropped, and only then. A jump to new numbers loses none of the packets with old ones that arrive in time while an earlier one is still awaited.",
    ["inputs", "histories", "schedules"],
    "all arrival sequences and timings of continuous streams, latencies and latency changes, arrival times supplied by the caller or taken on push",
    "The tests wait in real time for a few fixed patterns and cannot quantify over arrival times; a timer that is armed wrongly shows only in some.",
    ["jitter/buffer.go"],
    [("latency timer re-armed for the oldest waiting packet", "jitter/buffer.go popReady, UpdateLatency"), ("counters", "jitter/buffer.go stats")],
    technique="random arrival histories in virtual time, differential against a reference scheduler model",
    note="Virtual time; continuous streams (no jump beyond 3000).",
)
prop(
    "C24", "The jitter stage of the RTP chain reorders and forwards packets intact",
    "Wrapping a handler in the jitter stage hands it every packet received in time exactly once, in sequence order, with the header and payload as received; in-order packets are forwarded synchronously, and packets held back by a gap are forwarded no later than 60 ms after their arrival. An error of the inner handler is returned by the current or a later HandleRTP call and does not stop forwarding. Close closes the inner handler exactly once and stops forwarding, even while packets held back are being forwarded (one that is on its way already may complete).",
    ["histories", "schedules", "fault_sequences"],
    "all reorderings, losses, duplications and timings, failing inner handlers, close at any point",
    "One test pushes in-order packets only.",
    ["rtp/jitter.go", "jitter/buffer.go"],
    [("single-packet frames", "rtp/jitter.go audioDepacketizer"), ("one-slot error channel", "rtp/jitter.go handleRTP")],
    technique="random arrival histories in virtual time against a reordering model",
    note="",
)
prop(
    "C25", "RTP session delivers each SSRC's packets to its stream, intact and in order",
    "Over a connection that delivers datagrams in order, each accepted stream returns exactly the packets of its SSRC (header fields including CSRC and extensions, and payload, truncated only to the reader's buffer), in order, never another stream's data, without duplicates, and with at most the packets beyond the receive queue lost while the reader is not reading; a new SSRC is announced exactly once. Datagrams that are not RTP or exceed 1500 bytes are skipped without disturbing the session. What the reader obtained stays unchanged while later packets arrive.",
    ["inputs", "schedules", "histories"],
    "all interleavings of SSRCs, packet shapes, malformed and oversize datagrams, reader buffer sizes, and schedules of the accept loop and readers",
    "The test uses two streams with small identical packets; the zero-copy hand-over races with the queue only in some schedules.",
    ["rtp/session.go"],
    [("demultiplexing by SSRC", "rtp/session.go AcceptStream"), ("zero-copy hand-over or queue", "rtp/session.go readStream")],
    technique="random datagram scripts and schedules over an in-memory connection against a per-SSRC model, under the race detector",
    note="Readers that keep up (at most 10 unread packets per stream) lose nothing in the model.",
)
prop(
    "C26", "RTP session write is exact; Close unblocks everyone, nothing hangs",
    "Every packet written to a session's write stream, from any number of goroutines, becomes exactly one datagram that parses back to the same header and payload. Closing the session at any moment makes every blocked and later AcceptStream and ReadRTP return an error in bounded time and closes the connection once, whatever packets were in flight; no goroutine deadlocks.",
    ["schedules", "inputs"],
    "all packets, all concurrent writers, all moments of closing relative to accepting, reading and arriving packets",
    "The test closes an idle session only.",
    ["rtp/session.go"],
    [("marshal under a lock", "rtp/session.go writeStream"), ("fuse observed by readers and the accept loop", "rtp/session.go Close, readStream")],
    technique="random scripts with a close point in virtual time, deadlock detection, racing stress under the race detector",
    note="",
)
prop(
    "C27", "SRTP session protects and restores every packet for matching keys only",
    "For each supported profile, with or without a key identifier, packets written by one session are received by the peer with mirrored keys with equal header and payload, per SSRC in order; the datagrams on the wire do not contain the plaintext payload. A peer with different keys, or a datagram that was modified, replayed or truncated, never yields a packet. Default profiles offer the four suites with tags 1..4 and fresh random keys and salts of the proper lengths; unknown profile names are refused.",
    ["inputs", "configurations", "fault_sequences"],
    "all profiles, keys, key identifiers, packet contents and header shapes, corruptions and replays of datagrams",
    "The test sends one packet per direction with one profile.",
    ["srtp/srtp.go"],
    [("profile name mapping and key lengths", "srtp/srtp.go Parse, DefaultProfiles"), ("header re-parsed from the decrypted packet", "srtp/srtp.go ReadRTP")],
    technique="random round trips and tampering over an in-memory network",
    note="pion/srtp is trusted for the cryptography itself.",
)
prop(
    "C28", "UDP port allocation stays in range and finds a free port if there is one",
    "Listening on a port range returns a socket on the requested address whose port lies in the range, whenever at least one port of the range is free, for every set of occupied ports, and fails with the listen error when none is, or when the range is empty (min above max). Non-positive bounds mean: both, any port; only one, the open end of the port space; bind errors other than a port in use, and with a single-port range that one too, are returned. No socket is leaked by unsuccessful attempts, and the variant with a listen configuration behaves identically and applies that configuration.",
    ["configurations", "histories", "schedules"],
    "all ranges, all sets of occupied ports, concurrent allocations",
    "No test occupies ports; the wrap-around of the random start is hit by chance only.",
    ["rtp/listen.go"],
    [("random start with wrap-around over the range", "rtp/listen.go bindRange")],
    technique="random occupied-port sets on private loopback addresses against set membership",
    note="Uses 127.x.y.z addresses so that no other process interferes.",
)
# ---------------------------------------------------------------- SDP
prop(
    "C29", "SDP parsing never panics and rejects what it cannot use",
    "For every byte string, parsing an SDP offer or answer either returns an error or a description with a valid audio address and a non-zero port; it never panics or hangs. On the returned description, selecting audio, answering, and applying also never panic. Unknown codecs, formats and attributes are skipped without affecting the others.",
    ["inputs"],
    "all byte strings, in particular mutated and structured SDP with odd payload types, attributes, keys and addresses",
    "The tests parse a dozen well-formed messages; this is the network-facing parser.",
    ["sdp/offer.go", "sdp/helpers.go", "sdp/codecs.go", "rtp/codecs.go"],
    [("attribute and format parsing", "sdp/offer.go ParseMedia, parseSRTPProfile"), ("payload type table", "rtp/codecs.go CodecByPayloadType")],
    technique="grammar-based and mutational fuzzing with a no-panic/validity oracle, coverage-guided in the thorough tier",
    note="",
)
prop(
    "C30", "SDP offer and answer agree on codec, types and addresses on both sides",
    "Serialising, parsing and answering an offer and applying the parsed answer gives both sides the same audio codec and payload type, the same DTMF type (0 if the offer had none), and mirrored local and remote addresses. The codec is the one of highest priority among those offered that are known and enabled on the answering side (of several entries with that priority, the first of the parsed description), the answer lists exactly that codec (and DTMF), echoes the offer's session id, announces IPv4 and IPv6 addresses with their address type, gives the same result whether or not it passed through text, and no common codec gives the no-common-media error. The media address comes from the media-level connection line, else the session-level one, else the origin, together with the media port.",
    ["inputs", "configurations"],
    "all sets of enabled codecs on each side, offers with any payload type numbering and codec order, addresses and ports",
    "The tests compare a handful of literal SDP texts.",
    ["sdp/offer.go", "sdp/helpers.go", "sdp/codecs.go"],
    [("priority selection", "sdp/offer.go SelectAudio"), ("codec list from rtpmap and static types", "sdp/offer.go ParseMedia"), ("address fallback", "sdp/helpers.go GetAudioDest")],
    technique="random offers and codec sets through a full offer/answer exchange against a negotiation model",
    note="",
)
prop(
    "C31", "SDP crypto negotiation gives both sides the same keys or the demanded error",
    "When both sides permit encryption and share a suite, answering and applying yield mirrored configurations: one side's local key, salt and key identifier are the other's remote ones, with the same suite, and sessions built from them interoperate; the answer carries the tag of the chosen offered line; lines of unknown suites or with mandatory session parameters are passed over. If one side requires encryption and no common suite or no crypto is offered, it gets the no-common-crypto error; if a side disables encryption, none is configured. Every crypto attribute with an optional lifetime (decimal or power of two) and key identifier of 1 to 8 bytes parses to those values, and malformed keys, lifetimes or identifiers are rejected with an error.",
    ["inputs", "configurations"],
    "all combinations of encryption policies, subsets and orders of suites, tags, keys, padded and unpadded encodings, lifetimes and key identifiers, valid and malformed",
    "The tests use default profiles and a few literal crypto lines.",
    ["sdp/offer.go", "srtp/srtp.go"],
    [("suite matching and key swap", "sdp/offer.go SelectCrypto"), ("crypto attribute parsing", "sdp/offer.go parseSRTPProfile, parseLifetime, parseMKI")],
    technique="random crypto attributes against a reference parser, full exchanges with SRTP interoperability",
    note="",
)
prop(
    "C32", "Codec registry: enabling, lookup and offered list stay consistent",
    "A registered codec is found by its SDP name in any letter case (also with an explicit single channel) and, if its payload type is static, by that type in a media description, exactly while it is enabled; disabling and enabling are case-insensitive, affect only that name, and codecs registered as disabled start disabled. The offered list contains exactly the enabled codecs once each, static ones first, then by descending priority, with static payload types as registered and distinct dynamic types from 101 upward, as long as these suffice. Registration listeners see every codec registered before and after them exactly once; the clock rate defaults to the sample rate.",
    ["histories", "configurations"],
    "all sequences of registrations, enable/disable operations and lookups",
    "The tests use the built-in registrations with one or two switches.",
    ["codecs.go", "rtp/codecs.go", "sdp/codecs.go", "sdp/offer.go"],
    [("disabled set and codec list", "codecs.go"), ("lookup tables filled by listeners", "rtp/codecs.go, sdp/codecs.go"), ("sorting and type assignment", "sdp/offer.go OfferCodecs")],
    technique="random registration/enable histories against a set model, fresh process",
    note="Not safe for concurrent use by design; exercised sequentially.",
)
# ---------------------------------------------------------------- mixer
prop(
    "C33", "Mixer output is the saturated sum of its inputs, each played in FIFO order",
    "Every mixed frame is, sample by sample, the sum of the current frame of every playing input, saturated to +/-32767 instead of wrapping; an input's samples are played exactly once and in order, and when it holds more than its buffer (the configured number of frames, 5 by default) exactly its oldest samples are dropped. An input starts playing, initially and after it ran dry, only once it has buffered more than half of its frames (frames/2+1), contributing silence until then; a final partial frame is padded with silence. Adding and removing inputs does not disturb others, removed inputs are no longer heard, and frames given to the output stay unchanged when it keeps them.",
    ["inputs", "histories", "schedules"],
    "all numbers of inputs, sample values, write-length sequences relative to the ticks, buffer configurations, additions and removals at any time",
    "The tests mix constant values with equal frames.",
    ["mixer/mixer.go", "ring/buffer.go"],
    [("32-bit accumulation and clamping", "mixer/mixer.go mixInputs, mixOnce"), ("per-input ring and buffering flag", "mixer/mixer.go readSample, WriteSample")],
    technique="random input histories in virtual time against a reference mixer",
    note="Statistics counters are compared with the model too.",
)
prop(
    "C34", "Mixer keeps its cadence: one frame per period, bounded catch-up, clean stop",
    "The mixer writes one frame per period for as long as it runs, with or without inputs and with or without an output channel; when it was held up it catches up with the missed frames, so that the long-run count matches elapsed time, unless more than the input buffer's frames were missed, in which case it mixes that many and restarts its schedule. Writer errors are counted and do not stop it. After Stop no further frame is mixed (with an output channel, at most what it held is still written), no new input can be added, and all its goroutines end, even if the writer is slow or the output channel is full.",
    ["schedules", "fault_sequences", "configurations"],
    "all periods, hold-ups of the writer of any length at any time, output channel sizes, failing writers, stop at any time",
    "The tests call internal update functions with prepared clocks.",
    ["mixer/mixer.go"],
    [("time-based mix count with fuzz and reset", "mixer/mixer.go mixUpdate"), ("output channel and writer goroutine", "mixer/mixer.go mixOnce, writer, Stop")],
    technique="random delays and faults in virtual time against a cadence model, goroutine-leak detection",
    note="Virtual time; leak detection by the bubble's exit condition.",
)
prop(
    "C35", "Mixer is safe under concurrent inputs: nothing corrupted or double-counted",
    "With any number of goroutines writing to inputs, adding and removing inputs while the mixer runs, no data race occurs, every output sample equals a sum of samples that were written for that position, each input's samples are heard at most once and in order, and after everything stops the statistics satisfy: samples in = samples mixed + samples dropped + samples left, track count = inputs added minus removed. Removing an input twice, or a foreign or nil one, changes nothing.",
    ["schedules"],
    "all interleavings of input writes, mixer ticks, additions, removals and stop",
    "The tests are single-threaded with respect to mixing.",
    ["mixer/mixer.go"],
    [("mixer and input mutexes", "mixer/mixer.go"), ("atomic counters", "mixer/mixer.go Stats")],
    technique="racing stress with identifiable samples under the race detector, conservation invariants",
    note="Real goroutines; schedules are sampled, not enumerated.",
)
# ---------------------------------------------------------------- containers, end to end
prop(
    "C36", "WebM output contains every frame, bit-exact, at its presentation time",
    "After writing frames and closing, the WebM file parses, declares one audio track with the given codec, sampling rate, channel count and frame duration, and contains exactly the written frames, in order and byte-exact, all as key frames, the k-th at k times the frame duration (to the millisecond precision of the container, without drift). The caller may reuse its buffer after each write. The underlying file is closed exactly once, and the sample rate is reported as configured.",
    ["inputs", "histories"],
    "all frame contents and sizes, numbers of frames, rates, channels and frame durations, including fractions of a millisecond, streams longer than one cluster",
    "There is no test that reads the container back.",
    ["webm/writer.go", "opus/opus.go"],
    [("millisecond timestamps and cloned payloads", "webm/writer.go WriteSample")],
    technique="random streams, round trip through an independent EBML reader",
    note="Streams of up to several hours of stream time.",
)
prop(
    "C37", "Audio sent over RTP arrives as the same audio for every telephony codec",
    "For every registered audio codec, PCM frames encoded to RTP by one side, carried as packets (reordered or duplicated within the jitter latency) through the receive chain of jitter stage, mux and decoder, come out complete and in order: the G.711 output equals encode-then-decode of the input, the G.722 output equals a continuous codec's, one packet per 20 ms frame with the codec's payload type and RTP timestamps advancing by the codec's clock rate / 50. Lost packets leave all other frames delivered. Receiving at another sample rate yields the resampled stream.",
    ["inputs", "histories", "schedules"],
    "all codecs, audio contents, arrival permutations within the latency, losses, receiver sample rates",
    "Component tests exist, none composes encoder, packets, jitter stage, mux and decoder.",
    ["rtp/codecs.go", "rtp/rtp.go", "rtp/jitter.go", "rtp/mux.go", "g711/ulaw.go", "g711/alaw.go", "g722/g722.go"],
    [("encode and decode adaptors", "rtp/codecs.go EncodeRTP, DecodeRTP"), ("clock rate vs sample rate", "rtp/codecs.go, g722/g722.go")],
    technique="random end-to-end transmissions in virtual time against codec references",
    note="",
)
prop(
    "C38", "Ogg prompts decode completely into 20 ms frames of exact samples",
    "Reading an Ogg Vorbis prompt returns its complete audio: the concatenated frames equal the decoder's full sample output scaled to 16 bits, every frame except possibly the last has exactly one fiftieth of a second of samples of every channel, and none is empty. A sample rate or channel count other than the file's is refused loudly, as is data that is not Ogg Vorbis.",
    ["inputs", "configurations"],
    "all prompts obtainable by cutting and patching the embedded recordings at page boundaries, all mismatching parameters and corrupted headers",
    "The test reads one recording.",
    ["res/embed.go"],
    [("re-framing of decoder output", "res/embed.go ReadOggAudioFile")],
    technique="generated page-truncated files against direct decoding and the framing invariant",
    note="No Vorbis encoder is available offline, so variants derive from the recordings in the repository.",
)

prop(
    "C39", "A pipeline can describe itself and everything it forwards to, at any time",
    "The textual description (String) of every part of a pipeline - frame and rate adapters, switches, multi-writers, mixers and their inputs, decoders and encoders, RTP sequence writers, stream inputs, muxes, jitter handlers - is available at any time after construction and names what the part currently forwards to: a wrapper's description contains the description of its destination, so that the outermost part names every final destination, and one that was replaced or removed is no longer named. Describing is safe while other goroutines write, swap, register handlers or add and remove mixer inputs, and never changes the audio or packets that pass.",
    ["inputs", "configurations", "schedules"],
    "all chains of parts, and all interleavings of describing with use and reconfiguration",
    "No test calls String on a composed pipeline, let alone during use.",
    ["media.go", "mixer/mixer.go", "rtp/mux.go", "rtp/media.go", "rtp/jitter.go"],
    [("description of composed writers", "media.go, sampling.go, frames.go, multi.go, g711/, g722/, opus/ String"), ("locking of what String reads", "rtp/mux.go Mux.String, mixer/mixer.go Mixer.String, media.go SwitchWriter.String")],
    technique="generated pipelines: containment of descriptions, differential run without descriptions, race detector under concurrent reconfiguration",
)

prop(
    "C40", "Dumping media to files is complete and does not disturb it",
    "A dump writer passes every sample unchanged to its destination, reports the destination's errors, and once closed its file <name>_ar<rate>.<ext> holds exactly the data of all written samples (16-bit little-endian for PCM, the raw payload otherwise), replacing an older file. With LK_DUMP_RESAMPLE, LK_DUMP_G722 or LK_DUMP_MEDIA set to true, every resampler, G.722 coder or RTP codec handler that is created dumps its input and output (sip_resample_<n>_in/_out, sip_g722_dec/enc_<n>_in/_out, sip_rtp_in/out_<n>, numbered in order of creation), media and errors are the same as without, and with other values no file is written. A pipeline that is never closed may miss the last buffered part of its dump.",
    ["inputs", "configurations"],
    "all sample types, lengths and rates, several pipelines at once, all combinations of the settings, failing destinations",
    "No test enables a dump; the settings are read when a process starts.",
    ["dump.go", "media.go", "resample.go", "g722/g722.go", "rtp/codecs.go"],
    [("dump writer", "dump.go DumpWriter, media.go NewFileWriter, MultiWriter"), ("settings", "resample.go ResampleWriter, g722/g722.go Decode, Encode, rtp/codecs.go EncodeRTP, DecodeRTP")],
    technique="generated pipelines run in child processes with dumps, compared with a run without and with the data that passed",
    note="",
)

prop(
    "C41", "The mixer's statistics account for every frame, sample and delay",
    "The statistics given to a mixer describe exactly what it did: Tracks is the number of inputs attached now and TracksTotal that of all ever added; InputFrames and InputSamples count every write to an input and InputFramesDropped and InputSamplesDropped the writes that pushed out buffered audio and the samples so lost; Restarts counts the times an input that had been playing had nothing to give; MixedFrames and MixedSamples what inputs contributed; Mixes and OutputFrames the frames produced and OutputSamples their samples; WriteErrors the failed writes to the destination. Each tick of the clock is classified exactly once, by the number of frames due: one as TimedMixes (the first tick included), none as ZeroMixes, several as that many JumpMixes, and a tick before the end of the last frame as NegativeMixes; TimingResets grows by the number of frames mixed in a tick at which the schedule was given up, and BlockedMixes counts the frames for which the output channel was full.",
    ["histories", "schedules", "configurations"],
    "all histories of adding, writing, removing, stalls and failures of the destination, all buffer and channel sizes",
    "The tests print the statistics or check two or three counters in one scenario.",
    ["mixer/mixer.go"],
    [("counters", "mixer/mixer.go Stats, NewMixer, mixOnce, mixInputs, mixUpdate, writer, Input.WriteSample, readSample, NewInput, RemoveInput")],
    technique="generated histories on a simulated clock against a reference mixer that keeps the same accounts",
)

CLAIMED = None  # None: all
NOT_APPLICABLE = {}


def main():
    import sys
    claimed = [p["id"] for p in P]
    path = os.path.join(ROOT, "tools", "claimed.txt")
    if os.path.exists(path):
        claimed = open(path).read().split()
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in claimed:
            checks.append({
                "property": p["id"],
                "quick_cmd": "python3 run.py %s quick" % p["id"],
                "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                "technique": "property-based testing: " + p["_technique"],
                "level": "exploration",
                "level_note": "Sampled exploration with an explicit oracle; no proof. " + (p["_note"] or ""),
            })
        else:
            na.append({"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "check not built yet")})
    m = {
        "version": 1,
        "setup_cmd": "python3 run.py setup",
        "checks": checks,
        "not_applicable": na,
        "notes": "All checks are black-box Go property tests in h/props (module verif.local/h, replace => /repo), driven by run.py. No hooks in /repo.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
