#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Messages survive the wire unchanged under every segmentation",
  "A message of any kind and any contents that one side sends is received by the other side as the same kind with the same contents, and messages sent one after the other are received in that order, however the transport cuts the bytes into reads and writes. A connection that ends or fails at any byte yields only the messages that were completely transmitted, never a partial or altered one, and a failed send is reported to the sender.",
  ["inputs", "fault_sequences"],
  "all ten message kinds over boundary values of every field; every split of the byte stream into read/write pieces up to a bounded number of cuts; a connection end or error at every byte",
  "The tests send four messages through an in-memory pipe that delivers each frame in a fixed way; no test varies segmentation, cuts a frame, or checks all kinds and extreme values.",
  ["comm/package_util.go"],
  [("framing and decoding", "comm/package_util.go toWire, readWire, readBytes"), ("write loop", "comm/package_util.go sendWire")])

p("C02", "Messages sent concurrently to one peer never mix on the wire",
  "When several activities send to the same peer at the same time - broadcasts, answers to that peer's requests, and the state it is sent when it subscribes - the peer can decode the byte stream into exactly the messages sent, each intact and exactly once. No order of execution of the senders can splice two messages or lose one.",
  ["schedules"],
  "every interleaving of up to three concurrent senders to one connection (broadcast, single sender, ping and time-sync answers, subscription snapshot)",
  "The tests send from one goroutine at a time; interleavings of two senders inside a send are never produced on purpose.",
  ["comm/package_util.go", "comm/message_sender.go", "comm/package_handler.go"],
  [("send loop", "comm/package_util.go sendWire"), ("broadcast", "comm/message_sender.go SendMessage")])

p("C03", "Malformed input never crashes a process nor disturbs other clients",
  "Whatever bytes a peer sends - truncated or corrupted frames, absurd length prefixes, unknown message kinds, damaged compression or payload - the receiving process does not crash, acts on no message that was not validly encoded, and does not reserve memory that is out of proportion to the data received. The offending connection is closed: the server keeps running and every other client continues to be served, and a client whose only connection is lost this way ends with an error. Values in validly encoded messages, however absurd, crash neither.",
  ["inputs", "fault_sequences"],
  "all short byte strings over a structured alphabet, every truncation and every single-byte corruption of valid frames, every class of length prefix and envelope defect",
  "The tests only feed one well-formed and a few broken frames; they cannot cover every byte position and value.",
  ["comm/package_util.go", "comm/conn_handler.go"],
  [("frame reading", "comm/package_util.go readWire"), ("connection loop", "comm/conn_handler.go handleConnection")])

p("C04", "A broadcast reaches exactly the connected, entitled clients, once each",
  "A broadcast reaches every client that is connected throughout it and, for message kinds that belong to channels, subscribed to one of the kind's channels - exactly once each - and no client that is not subscribed to such a channel or that had already disconnected. A client that cannot be written to never prevents or duplicates delivery to the others, and the broadcast reports failure exactly when at least one delivery failed, naming every failure.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of broadcasts with connects, disconnects and subscriptions of up to three clients, with every subset of failing clients and every message kind",
  "The tests broadcast to a fixed set of clients from one goroutine with no failing connection; membership changes during a broadcast and write failures are never explored.",
  ["comm/message_sender.go", "comm/package_util.go", "comm/conn_handler.go", "util/collector.go"],
  [("fan-out", "comm/message_sender.go SendMessage"), ("membership", "comm/message_sender.go AddConn, DelConn, Subscribe"), ("kind to channels", "comm/package_util.go channelOf")])

p("C05", "Every request is dispatched once and answered once to its sender",
  "Every message received on a connection is handed exactly once to the handler for its kind, together with the connection it came from; each ping and each time-sync request a client sends to the server is answered exactly once and only on that client's connection. A time-sync answer repeats the client's own send time and carries server receive and send times that were both taken between receiving the request and sending the answer, in that order.",
  ["schedules", "inputs"],
  "all ten message kinds, every mix of up to three requests from two clients and every interleaving of their handling",
  "The tests dispatch each kind once with a mock; concurrent requests from several clients and the timing relation between the timestamps are not explored.",
  ["comm/package_handler.go", "comm/conn_handler.go"],
  [("dispatch", "comm/package_handler.go Handle"), ("answers", "comm/package_handler.go HandleTimeSyncRequest, PingHandler")])

p("C06", "After volume changes everyone agrees on the last volume set",
  "Once activity settles after any overlapping volume commands and client subscriptions, every subscribed client's effective volume is the one the server holds, which is that of one of the latest successful volume commands; a client joining at any moment learns it. Volume messages received on one connection take effect in the order in which they arrived.",
  ["schedules", "histories"],
  "every interleaving of up to two volume commands with up to two joining clients; every order of execution of the handlers of consecutive volume messages at a client",
  "The tests call the volume command and the join handler one after the other; the outcome depends on the interleaving of set, broadcast and snapshot.",
  ["schedule/server_state_commands.go", "schedule/server_state.go", "comm/package_handler.go"],
  [("volume command", "schedule/server_state_commands.go volumeCommand"), ("snapshot on subscribe", "schedule/server_state.go sendVolume"), ("client dispatch", "comm/package_handler.go Handle")])

p("C07", "Playlist edits behave like list edits for all positions",
  "For every sequence of adding, inserting, removing and jumping with any integer positions - negative, past the end, on an empty playlist - the playlist behaves like an ordered list in which positions are clipped to the list (and jump targets wrap around), reports the removed song, and never panics. The reported position always designates an entry of a non-empty playlist, and a listing handed out earlier does not change when the playlist is edited later.",
  ["histories", "inputs"],
  "all operation sequences up to a depth over all positions around the bounds of the list and extreme integers, through the playlist and through the control commands",
  "The tests try a dozen chosen sequences; boundary positions such as the exact end, negative jumps and long sequences are not among them.",
  ["playback/playlist.go", "schedule/server_state_commands.go"],
  [("edit operations", "playback/playlist.go AddSong, InsertSong, RemoveSong, SetPos, Pos, Songs")])

p("C08", "Concurrent playlist edits are atomic",
  "When several control sessions edit and list the playlist at the same time, while it is being streamed, every operation takes effect at one instant between its call and its return: the results and the final playlist are explained by some sequential order. No edit is lost, applied twice or half-visible, no session blocks forever, and no interleaving crashes the server.",
  ["schedules", "histories"],
  "every interleaving (within a preemption bound) of two or three sessions with one or two operations each, with and without the streaming loop running, every result checked for linearizability",
  "The tests edit the playlist from one goroutine; lost updates and torn reads only appear in particular interleavings.",
  ["playback/playlist.go"],
  [("edit operations under the songs lock", "playback/playlist.go AddSong, InsertSong, RemoveSong, Songs"), ("streaming loop's reads", "playback/playlist.go nextSong, StreamLoop")])

p("C09", "Songs play in playlist order and a jump plays the song jumped to",
  "Left alone, the playlist plays its songs in order and starts again at the beginning after the last one. After a jump, whatever the moment at which it is issued and however many jumps precede it, the next song to start is the one at the position of the latest jump (unless the playlist is edited in between), playback then continues in order from there, and issuing the jump never blocks.",
  ["schedules", "histories"],
  "every moment of up to three jumps relative to the streaming loop's steps, including jumps while paused, at the end of a song, during unplayable songs, and on an empty playlist",
  "The tests inspect the jump's bookkeeping without the streaming loop running; the race between a jump and the natural end of a song is never explored.",
  ["playback/playlist.go"],
  [("jump", "playback/playlist.go SetPos"), ("song end and advance", "playback/playlist.go shouldBreakStreamerPushLoop, nextSong, StreamLoop")])

p("C10", "Every sample of every song enters the stream once, in order, correctly indexed",
  "The stream read from the playlist consists of each playing song's samples in order with both channels in step, interrupted only by silence markers while paused, between songs (as many as configured) and when there is nothing to play; a song's samples are neither lost, duplicated nor reordered, whatever the song's length, the size of the reads, the pauses and the timing of reader and writer. The index reported with each block is the number of samples read before it.",
  ["schedules", "inputs"],
  "songs of every length around multiples of the internal block size, all read sizes, pause and resume at every point, every interleaving of the streaming loop with the reader",
  "The tests push one or two buffers of fixed size and read them back; lengths around block boundaries, pauses and concurrent reads are not combined.",
  ["playback/playlist.go"],
  [("producer", "playback/playlist.go pushStreamer, pushBuffer, pushSample"), ("consumer", "playback/playlist.go Fill")])

p("C11", "Song starts and pauses are announced at exactly the right sample",
  "Every song that starts is announced exactly once, with its name, its length and the index of the stream sample at which its first sample appears. Every pause and every resume that reaches the stream is announced exactly once with the index at which silence begins or the song continues, so that the announcements alone tell for every sample of the stream whether it was playing; no other announcements are made.",
  ["schedules", "histories"],
  "every moment of up to three pause or resume commands relative to the streaming loop, several songs, with the announcements compared with the actual stream",
  "The tests call the announcement code directly; whether announcements match the stream for every timing of pause and resume is not tested.",
  ["playback/playlist.go"],
  [("song start", "playback/playlist.go pushStreamer"), ("pause toggle", "playback/playlist.go callPauseToggleHandler, SetPlaying")])

p("C12", "The stream never dries up or leaks, even if songs cannot be played",
  "Whatever the playlist contains - nothing, missing, unreadable or undecodable files, empty songs - the server keeps producing stream samples, so no reader waits forever, and skips what it cannot play so that every playable song of the playlist is eventually played. Every opened song file is closed again once the song ends, is skipped or cannot be decoded.",
  ["inputs", "schedules", "fault_sequences"],
  "all playlists up to a length over playable, empty, missing, undecodable songs, every interleaving with the reader, and song removal or jumps meanwhile",
  "The tests stream one good file; failure paths and their resource handling are not reached.",
  ["playback/playlist.go", "playback/playback.go"],
  [("skip on error", "playback/playlist.go StreamLoop"), ("open and decode", "playback/playback.go getStreamer")])

p("C13", "The server emits a gapless, regularly timed sequence of chunks",
  "The server sends chunk k, with consecutive identifiers from zero, the configured number of samples and a start time exactly k chunk durations after the first one's, which lies the configured delay after streaming began; its first sample index is where the previous chunk ended. For every audio chunk the clients interested in meta data receive the same start time, first index and size, and each chunk is sent before its playback time by the configured delay as long as the playlist delivers.",
  ["schedules", "configurations"],
  "all small configurations of chunk size, chunk time, delays and sample rate, the first several chunks, every interleaving of the asynchronous sends under virtual time",
  "No test runs the streaming loop at all.",
  ["schedule/server_state.go", "schedule/server.go"],
  [("streaming loop", "schedule/server_state.go streamMusic")])

p("C14", "The player's sample queue is a bounded FIFO that never loses a wake-up",
  "Samples come out of the player's sample queue in the order they went in, each once and with its own timestamp; looking at the head does not remove it, the length never leaves zero to capacity. A producer waits only while the queue is full and a consumer only while it is empty: nobody sleeps forever while it could proceed.",
  ["schedules", "histories"],
  "every interleaving of producers, consumers and observers with several operations each for small capacities, and all sequential operation sequences up to a depth",
  "The tests run one producer and consumer under the default scheduler; a lost wake-up needs a particular preemption between a check and a wait.",
  ["playback/timed_sample_queue.go"],
  [("ring buffer and condition variable", "playback/timed_sample_queue.go Add, Remove, Peek, waitNotFull, waitNotEmpty")])

p("C15", "Chunks received by a player become correctly timed samples, none lost",
  "Every chunk accepted for playback contributes all its samples, in the order in which the chunks were accepted, each with the time the chunk starts plus its offset at the sample rate; no sample is lost, duplicated or reordered however chunk arrival interleaves with the playback side. A chunk arriving before playback is ready is ignored without effect.",
  ["schedules", "inputs"],
  "every interleaving of one or two arriving chunk streams with the reading loop and a consumer, small chunk and queue sizes including empty chunks, all boundary sample rates",
  "The tests queue chunks and read them in a fixed order; arrival during a read, and blocking on a full queue, are not explored.",
  ["playback/playback.go", "playback/streamer.go"],
  [("accept", "playback/playback.go QueueChunk"), ("reading loop", "playback/streamer.go ReadChunks")])

p("C16", "Playback starts each run of samples at its scheduled time",
  "After start-up and after every break in the stream, the player outputs silence until the scheduled time of the next sample and then that sample, to within one sample period, skipping only samples whose time has already passed; nothing that could still be played on time is dropped or delayed. Between breaks, samples are output consecutively and unmodified.",
  ["inputs", "histories"],
  "all small streams of runs and breaks, all scheduled times before, around and after the current time, all sizes and sequences of output buffers",
  "The tests drive two or three buffers with hand-picked times; the relation between clock, buffer and schedule is a large arithmetic space.",
  ["playback/streamer.go"],
  [("alignment", "playback/streamer.go Stream, streamSync, streamDirect")])

p("C17", "Output samples are the scaled, clipped input - never wrapped or swapped",
  "Every output sample is the input multiplied by the volume, clipped to full scale and quantised monotonically to signed 16-bit little-endian, left channel first, within one quantisation step of the ideal value; louder input never yields a lower output and no value wraps to the opposite sign. Low and high channel lists combine index by index into pairs.",
  ["inputs"],
  "every quantisation boundary and its neighbours (all 65536 levels), values outside full scale, infinities and tiny numbers, all volumes of a grid, all buffer sizes up to a bound",
  "The tests check a handful of values; the extreme level is exactly the kind of single value a sample misses.",
  ["playback/playback.go"],
  [("quantisation", "playback/playback.go convertSampleToBytes, samplesToAudioBuf"), ("pairing", "playback/playback.go CombineSamples")])

p("C18", "The clock offset is the mean of a full round of measurements",
  "After a round of time-sync measurements completes, the client's synchronised time differs from its raw clock by the average, over exactly the measurements of that round, of the classical four-timestamp offset; it is off by at most half of the largest round-trip asymmetry plus rounding. Until a round is complete the synchronised time does not change, and raw time is never affected.",
  ["inputs", "histories"],
  "all sequences of up to several measurements over a grid of true offsets, network delays in both directions (including extreme values), round sizes and resets in between",
  "The tests feed one symmetric example; asymmetry, several rounds, resets and extreme timestamps are not explored.",
  ["timing/timing.go"],
  [("offset update", "timing/timing.go UpdateOffset, ResetOffsets, GetSyncedTime")])

p("C19", "Overlapping time-sync rounds and answers never corrupt the clock",
  "Whatever the interleaving of answers being processed, new rounds being started and the clock being read, no process crashes or hangs, and the clock offset is always zero or the average of a full set of measurements, none of which is counted twice. Concurrent processing of the answers of one round gives the same offset as processing them one by one.",
  ["schedules"],
  "every interleaving of up to three concurrent answers with up to two round starts and clock reads",
  "The test processes answers sequentially; the window between counting and averaging needs a specific preemption.",
  ["timing/timing.go", "schedule/infoer.go"],
  [("shared measurement list", "timing/timing.go UpdateOffset, ResetOffsets"), ("round driver", "schedule/infoer.go syncTime")])

p("C20", "A late subscriber learns the same state as one present from the start",
  "A client that subscribes to the meta data at any moment - also in the middle of a song change, pause or resume - can tell from what it is sent, for every stream sample from the newest song's start on, the same song, the same playing or paused status and the same paused amount as a client subscribed from the beginning. The server's history of pauses never loses an entry that is still needed, never grows by entries made irrelevant by newer songs, and no interleaving crashes the server.",
  ["schedules", "histories"],
  "every interleaving (within a preemption bound) of song starts, pause announcements and a subscription, and all histories of song and pause events up to a depth",
  "The tests call the handlers sequentially with prepared lists; lost entries need particular interleavings of append, clean-up and snapshot.",
  ["schedule/server_state.go"],
  [("announcement handlers", "schedule/server_state.go createNewSongHandler, createPauseToggleHandler"), ("clean-up", "schedule/server_state.go removeOldPauses"), ("snapshot", "schedule/server_state.go createClientHandler")])

p("C21", "The info display is a function of the announcements, not of their order",
  "For every set of song, chunk and pause announcements, the current song, position, length, progress and playing status an info client displays at a given time are those determined by the stream itself: they do not depend on the order in which announcements arrived, on duplicates, or on how often the display was refreshed before. The song position never counts paused time. (Of two songs or two opposite toggles announced for the same sample, any may be taken to come first.)",
  ["histories", "inputs", "schedules"],
  "all arrival orders of small announcement sets derived from all small stream histories, all query times, with and without earlier queries, and concurrent arrival and refresh",
  "The tests query a few prepared states once; permutations, duplicates and repeated queries over many histories are not explored.",
  ["cmd/music-sync-infoer/state.go", "cmd/music-sync-infoer/infoer_package_handler.go"],
  [("state query", "cmd/music-sync-infoer/state.go Info"), ("announcement handling", "cmd/music-sync-infoer/infoer_package_handler.go")])

p("C22", "The info display renders any text, lyrics, time and progress faithfully",
  "Texts are drawn character by character in adjacent cells whatever script they use; the lyrics view shows, newest first, exactly the lines already begun and of them the words whose time has come (at most a tenth of a second early); durations read as hours, minutes and seconds; the progress bar fills in proportion and only within its length. No content and no terminal size makes the display fail.",
  ["inputs"],
  "all short texts over one- to four-byte characters, all small lyrics with timestamps around all query times including empty lines, all heights and widths up to a bound, all progress values of a grid",
  "The tests use ASCII strings and one lyrics example at a few times.",
  ["cmd/music-sync-infoer/drawing.go", "cmd/music-sync-infoer/main.go"],
  [("text and bars", "cmd/music-sync-infoer/drawing.go"), ("lyrics window", "cmd/music-sync-infoer/main.go lyricsHistory")])

p("C23", "Command lines are split into exactly the words the user wrote",
  "A command line is split at unescaped spaces into the command and its parameters; a backslash makes a following space or backslash literal and stands for itself before anything else, so that any non-empty words can be written, including ones with spaces, backslashes and characters of any script. Leading, trailing and repeated spaces create no words, and no line makes the parser fail.",
  ["inputs"],
  "every line up to a length over an alphabet of letters, space, backslash, quotes and multi-byte characters, against an independent reference splitter",
  "The tests parse a list of hand-written ASCII lines.",
  ["ssh/parser/parser.go", "ssh/parser/Shell.g4"],
  [("listener", "ssh/parser/parser.go ExitCharacter, ExitLine")])

p("C24", "Completion only offers lines that mean what was offered; writing round-trips",
  "Writing a parsed command back as text and parsing it again gives the same command and parameters. Every completion offered for what stands before the cursor extends exactly that text to a line that parses to the same command with the completed word being one of the options that match what was typed, every matching option is offered, and no input and no cursor position makes completion fail.",
  ["inputs"],
  "all command and parameter words up to a length over letters, spaces, backslashes and multi-byte characters; all lines up to a length with all cursor positions against sample commands",
  "The tests complete a list of well-behaved lines with the cursor at the end.",
  ["ssh/auto_completer.go", "ssh/parser/parser.go"],
  [("completion", "ssh/auto_completer.go Do"), ("writing back", "ssh/parser/parser.go Unparse")])

p("C25", "Only the configured credentials of the named user grant access",
  "A login is accepted only if the named user is configured and presents exactly that user's non-empty password or exactly that user's configured valid public key; unknown users, empty or missing credentials, another user's credentials, malformed stored keys and near misses are all refused. The users configured are exactly those in the users file, and a missing or malformed file is an error rather than an open door.",
  ["inputs", "configurations"],
  "all user tables over present, empty, missing and malformed credentials and all login attempts over users, passwords and keys of a bounded universe",
  "The tests try a few users with a few passwords and keys.",
  ["ssh/options.go", "ssh/ssh.go"],
  [("password and key checks", "ssh/options.go createPasswordAuthOption, createPublicKeyAuthOption"), ("users file", "ssh/ssh.go ReadUsersFile")])

p("C26", "Control commands do what they say, and rejected ones change nothing",
  "Every control command with valid arguments has its stated effect and reports it; with missing or malformed arguments it only yields its usage and changes neither playlist, position, volume nor playing state and sends nothing to clients. A position given to queue that is not a number counts as no position, as documented by the tests. Unknown commands are reported as unknown, and help covers exactly the available commands.",
  ["inputs", "histories"],
  "all commands with all argument lists up to a length over valid, boundary and malformed values, in all small server states, each compared with a reference model",
  "The tests run each command with one or two argument lists.",
  ["schedule/server_state_commands.go", "ssh/command.go"],
  [("commands", "schedule/server_state_commands.go"), ("help and listing", "ssh/command.go helpCommand, lsCommand")])

p("C27", "Songs listed can be queued and played, for every spelling of the music dir",
  "However the music directory is written (relative, absolute, with redundant or parent parts, trailing slash), every song below it is listed under its path relative to that directory, exactly once, and the listed name can be queued, matched by patterns and opened for playback, metadata and lyrics. No listing or queueing request reveals or adds anything outside the music directory.",
  ["configurations", "inputs"],
  "all small directory trees including names with dots, spaces and directory-prefix look-alikes, all spellings of the music directory, all subdirectory and pattern arguments of a bounded grammar",
  "The tests use one tree with one spelling.",
  ["util/file_utils.go", "ssh/command.go", "schedule/server_state_commands.go"],
  [("listing", "util/file_utils.go ListAllFiles, ListAllSubDirs, ListGlobFiles, removeDirPrefix")])

p("C28", "Log messages appear exactly when their level and subsystem setting say so",
  "A log message is written exactly once if its level is at or above the level set for its subsystem, or above the default level when that subsystem has no setting, and not at all otherwise; warnings and worse go to the error output, everything else to the normal output. Each logging option on the command line sets exactly the subsystem it names, and the general option sets the default.",
  ["configurations", "inputs"],
  "all combinations of message level, subsystem, subsystem setting and default setting, and every combination of up to two logging options with every level name and spelling",
  "The tests check levels with directly assigned settings; the path from command line options to effect is not tested.",
  ["logging/logger.go", "logging/level.go", "logging/cutoff.go", "cmd/flags.go"],
  [("level filter", "logging/logger.go GetLogger"), ("option handling", "cmd/flags.go HandleLoggingFlags")])

p("C29", "Lyrics and metadata are those stored with the song, or none",
  "The lyrics and the title, artist and album announced for a song are exactly those stored with that song, unchanged by the way to the client; if they are missing, unreadable or malformed, none are announced and the song still plays. No file stays open after they have been read.",
  ["inputs", "fault_sequences"],
  "all small lyrics documents, every truncation and every single-byte corruption of a lyrics file, missing files, directories in place of files, songs without tags",
  "The tests read one good file each.",
  ["metadata/lyrics_provider.go", "metadata/metadata_provider.go", "schedule/server_state.go"],
  [("lyrics file", "metadata/lyrics_provider.go CollectLyrics"), ("tags", "metadata/metadata_provider.go CollectMetadata"), ("to wire", "schedule/server_state.go toWireLyrics")])

p("C30", "Error collection reports every error added, exactly once",
  "When failures are gathered from any number of concurrent activities, waiting for the collection ends only after every failure added before is recorded; the combined error then contains each of them exactly once and names the base message, and it is absent exactly when nothing was added.",
  ["schedules"],
  "every interleaving of up to three adders with the collecting side, and reuse of one collector over several rounds",
  "The test adds errors one after the other and waits after each.",
  ["util/collector.go", "util/multi_error.go"],
  [("collector", "util/collector.go Add, Wait, Err")])

p("C31", "Start-up options take effect as given and a failed start is an error",
  "Every server option - chunk size, sample rate, breaks, delays, time-sync settings, music directory, host key - takes effect exactly as given and independently of the others, with the chunk duration always being the time the chunk takes to play at the sample rate; options not given have their documented defaults. If a precondition (music directory, users file, address, server to connect to) fails, the program ends with an error instead of running half-configured or crashing.",
  ["configurations", "fault_sequences"],
  "all pairs of server options over several values each, every subset of failing preconditions, for the three programs",
  "No test runs the start-up code of any program.",
  ["cmd/music-sync-server/main.go", "cmd/music-sync-player/main.go", "cmd/music-sync-infoer/main.go", "cmd/flags.go"],
  [("option mapping", "cmd/music-sync-server/main.go setScheduleVars, run"), ("client start", "cmd/music-sync-infoer/main.go run, cmd/music-sync-player/main.go run")])

p("C32", "A client that connects is synchronised and subscribed, then kept in sync",
  "A player subscribes exactly once to the audio channel and an info client exactly once to the meta channel; both start a time-sync round immediately and repeat it at the configured interval for as long as they run, each round sending the configured number of requests with their actual send times, spaced by the configured delay. A failing send neither ends the rounds nor blocks the client.",
  ["configurations", "fault_sequences", "schedules"],
  "all small settings of interval, cycle count and delay, every position of a failing send, every interleaving of the client's start-up activities under virtual time",
  "No test runs the client start-up or the periodic synchronisation.",
  ["schedule/player.go", "schedule/infoer.go"],
  [("start-up", "schedule/player.go Player, schedule/infoer.go Infoer"), ("round driver", "schedule/infoer.go syncTime")])

p("C33", "Every player plays the stream in sync with the server's clock",
  "Whatever its own clock shows, whenever it connects and whatever users do meanwhile, a player outputs at every moment the sample that the server scheduled for that moment of the server's clock - to within one sample period plus the error of its time synchronisation - from the first chunk it is sent on, and silence before that and wherever the stream is silent. As long as messages reach it before their samples are due, nothing is played early, late, twice or out of order, nothing is left out and everything has the volume set, also if messages arrive in bursts, samples take no whole number of nanoseconds, the device is slightly off (realigned at every break) or the time is synchronised again. So all players play the same at the same time.",
  ["histories", "schedules", "configurations"],
  "all times of user commands and of joining on a grid, all listed clock differences, network delays, jitters and stalls, each with a whole server and a whole player under virtual time; every interleaving around bursts and the start of playing",
  "Tests run single functions of server and player; that the parts fit together so that players are in sync is never executed.",
  ["schedule/", "playback/", "timing/timing.go", "cmd/music-sync-player/main.go", "comm/package_handler.go"],
  [("server", "schedule/server_state.go streamMusic"), ("player start-up", "schedule/player.go Player"), ("messages", "cmd/music-sync-player/main.go, comm/package_handler.go Handle"), ("clock", "timing/timing.go"), ("output", "playback/streamer.go Stream, ReadChunks")])
p("C34", "Every info client shows what is heard",
  "Whatever its own clock shows, whenever it connects and whatever users do meanwhile, an info client shows at every moment the song of which the server scheduled a sample for that moment of the server's clock, the position of that sample in the song (to within the error of its time synchronisation and two samples), the song's length and that it is playing; while a song is paused it shows that song, paused, at the position at which it will continue; and it shows the volume set. It does so from the first chunk it is told about on, for everything from the start of the newest song announced before it connected on, however rarely it is refreshed.",
  ["histories", "schedules", "configurations"],
  "all times of user commands and of joining on a grid, all listed clock differences, network delays and stalls, each with a whole server and a whole info client under virtual time; the display is compared with the samples streamed, not with the announcements",
  "Tests compare hand-written announcements with hand-computed results; whether announcements, stream and display agree is never executed.",
  ["schedule/", "playback/playlist.go", "timing/timing.go", "cmd/music-sync-infoer/state.go", "cmd/music-sync-infoer/infoer_package_handler.go"],
  [("announcements", "schedule/server_state.go, playback/playlist.go"), ("joining", "schedule/server_state.go createClientHandler"), ("display", "cmd/music-sync-infoer/state.go Info"), ("messages", "cmd/music-sync-infoer/infoer_package_handler.go"), ("clock", "timing/timing.go")])
p("C35", "Each client is sent every chunk of the stream, in the order of playing",
  "From the first chunk it is sent after its subscription on and for as long as it stays connected, a client subscribed to the audio is sent every chunk of the stream exactly once and in the order in which the chunks are to be played, and a client subscribed to the meta data likewise every announcement of a chunk. This holds also when several chunks follow each other at once because the playlist was blocked, when the client takes no data for any length of time, and whatever other clients do meanwhile: subscribe, stop reading or disconnect.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of the server's activities around bursts of chunks and around moments at which connections start to take data again, with two or three clients that stall, leave or join",
  "Tests neither run the streaming loop nor a client that does not read; in which order concurrent sends reach a connection is decided by the scheduler.",
  ["schedule/server_state.go", "comm/message_sender.go", "comm/package_util.go"],
  [("streaming loop", "schedule/server_state.go streamMusic"), ("order", "comm/message_sender.go Enqueue"), ("wire", "comm/package_util.go sendWire")])
p("C36", "The server keeps nothing of clients and sessions that are gone",
  "Once a client has disconnected - in whatever way, after whatever messages, while messages are being sent to it or not - the server closes its connection, and after that neither goroutines nor references to the connection remain: however many clients come and go, what the server holds depends only on the clients connected at the moment. Likewise goroutines and open files of the control interface: nothing remains of attempts to connect or log in and of sessions that are over, however they ended.",
  ["histories", "fault_sequences"],
  "every short sequence of what a client may do (subscribe, synchronise, ping, send half a message, stop reading) combined with every way of leaving, each repeated, alone and among other clients; every stage of a control session with several inputs and ways of leaving",
  "Tests connect a few clients once and never look at what is left; a leak is invisible until the server has run for long.",
  ["comm/message_sender.go", "comm/conn_handler.go", "ssh/session_handler.go"],
  [("membership", "comm/message_sender.go AddConn, DelConn, Subscribe"), ("connections", "comm/conn_handler.go handleConnection, serverConnectionAcceptor"), ("sessions", "ssh/session_handler.go sessionHandler")])
p("C37", "Whatever is typed in a control session, the server and other sessions go on",
  "Whatever is typed in a control session - any keys in any order, on a terminal of any size, with other sessions open over the same or another connection, however their input interleaves and however they end - the server keeps running and leaves alone the terminal it was started from, and every other session is unaffected: each shows a prompt and what is typed; every line that is entered is executed exactly once, in order, and its answer is shown on that session's terminal and no other; a line that is not entered is not executed; after any keys, unless the session is over, a command can be entered; a session whose command takes long or whose terminal takes no output holds up no other.",
  ["inputs", "schedules"],
  "every sequence of a few keys and escape sequences (controls, arrows, completion, history search, wide and invalid characters) on terminals of several widths; every interleaving of the steps of two or three sessions",
  "Tests check the completion function on a few lines; no test opens a session. Keys only do harm in combination and in certain states of the line editor.",
  ["ssh/session_handler.go", "ssh/auto_completer.go", "ssh/ssh.go"],
  [("line editor", "ssh/session_handler.go createReadlineConfig"), ("entering lines", "ssh/session_handler.go readLoop, handleLine"), ("completion", "ssh/auto_completer.go Do"), ("sessions", "ssh/session_handler.go sessionHandler")])
p("C38", "The infoer runs until told to end and leaves the terminal as it found it",
  "Once its screen is shown, the infoer keeps showing it until Ctrl-C is pressed or the connection to the server is lost: no other key, report of the mouse, byte sequence or size of the terminal ends it. Then it ends, at any point of its start or of any message: with exit code 0 for Ctrl-C, and 1 as the connection was closed, closed in one direction, reset, or sent what can not be understood - even if both come together, or along with many other keys - and the terminal is left as it was: its settings, screen, cursor and modes. A start that fails does not touch the terminal.",
  ["inputs", "fault_sequences", "schedules"],
  "every byte of the messages after which the connection can end, in three ways and at three phases of the start; every single-byte corruption; every sequence of three bytes of those which make up escape sequences; resizes; both ends together at several distances",
  "Tests call single functions of the infoer with a simulated screen; none runs the program, and what it leaves behind in the terminal is invisible to them.",
  ["cmd/music-sync-infoer/main.go", "cmd/music-sync-infoer/drawing.go", "comm/conn_handler.go", "schedule/infoer.go"],
  [("screen", "cmd/music-sync-infoer/main.go createTcellScreen, closeScreen, tcellLoop"), ("keys", "cmd/music-sync-infoer/drawing.go eventLoop"), ("loss of the connection", "comm/conn_handler.go ConnectToServer, Exit")])

p("C39", "A shortage of file descriptors ends once it is over: all are served again",
  "However often and whenever accepting a client fails for a passing reason, as there being too many open files, the server and its control interface keep running: clients and sessions that are connected go on being served meanwhile, and once the reason is gone, all clients that are waiting to be accepted and have not given up, and all that connect later, are accepted and served like any other.",
  ["fault_sequences", "schedules"],
  "every sequence of up to 5 clients and temporary failures of accepting a connection, of several kinds, one after the other; shorter ones at any moment; real shortages of file descriptors with clients that connect, and give up, during them",
  "The tests accept connections from a listener that never fails; what happens after a failure is not tested.",
  ["comm/conn_handler.go", "ssh/ssh.go"],
  [("clients", "comm/conn_handler.go serverConnectionAcceptor"), ("sessions", "ssh/ssh.go StartSSH")])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
