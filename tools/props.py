# The properties, their anchors and how each is decided: gen.py turns this into properties.jsonl, MANIFEST.json and the
# per-property part of DESIGN.md.
L = 'arm-wt-22k/lib_src/'; H = 'arm-wt-22k/host_src/'
SMF = L + 'eas_smf.c'; PUB = L + 'eas_public.c'; VM = L + 'eas_voicemgt.c'; MIDI = L + 'eas_midi.c'; MDLS = L + 'eas_mdls.c'
DSY = L + 'eas_dlssynth.c'; WTS = L + 'eas_wtsynth.c'; WTE = L + 'eas_wtengine.c'; MIX = L + 'eas_mixer.c'
REV = L + 'eas_reverb.c'; CHO = L + 'eas_chorus.c'; HOST = H + 'eas_hostmm.c'; TCD = L + 'eas_tcdata.h'; ARR = L + 'eas_smfdata.h'
IM = MIDI
EXPL = 'bounded exhaustive explicit-state exploration of the implementation (save/restore/hash of its whole memory)'
ENUM = 'bounded exhaustive enumeration of executions of the real code'
P = []
def prop(id, title, statement, over, q, why, files, mech, technique, note, design, state=None, thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, q=q, why=why, files=files, mech=mech, technique=technique, note=note, design=design, state=state or [], thorough=thorough))

prop('C01', 'Broken MIDI files never harm the process or the instance',
 'Whatever bytes a MIDI file consists of, opening, preparing, playing, seeking and closing it terminates with a result code, without reading or writing outside the library\'s memory, without undefined behaviour and without an endless loop. Afterwards the same instance still plays a good file exactly as a fresh instance would, and closing everything frees everything.',
 ['inputs'], 'every file that differs from valid ones by a truncation, any one byte, any pair of header/length fields, and every track body of up to 5 (6) bytes over an alphabet of the bytes that mean something',
 'The tests play a handful of well-formed songs; the guarantee is about all files, in particular broken ones.',
 [SMF, L + 'eas_midi.c', PUB], [('chunk and header parsing with bounds', SMF), ('variable-length and running status parsing', SMF), ('file-type detection', PUB)],
 ENUM + ' under AddressSanitizer/UBSan, all inputs within bounds', 'Exhaustive within the stated input bounds; memory errors are those AddressSanitizer and UBSan (memory-relevant groups) see; the good-file probe compares audio bit for bit.',
 'every mutated or generated file is opened, prepared, rendered, located, closed on an instance built with ASan+UBSan; then a known-good file must play bit-identically to a recording made on a fresh instance (oracle) and no block may stay allocated. Bounds: see evidence. CPU limit per case decides termination.')

prop('C02', 'Broken DLS collections never harm the process or the instance',
 'Whatever bytes a DLS collection consists of, loading it and then playing with it terminates with a result code, without reading or writing outside the library\'s memory, without undefined behaviour and without an endless loop. A refused collection leaves the instance playing exactly as before, and closing everything frees everything including the file handles used while parsing.',
 ['inputs'], 'every collection that differs from three valid ones by a truncation, any one byte, any 4-byte field set to a border value, any pair of structural fields, every conditional chunk of up to 4 (5) opcodes, all combinations of missing/superfluous regions, waves, pool entries, loops',
 'No test loads a collection at all.',
 [MDLS, DSY, WTE, PUB], [('two-pass parser with limits', MDLS), ('loop bounds checks', MDLS), ('sample end check', WTS), ('loading into a stream or globally', PUB)],
 ENUM + ' under AddressSanitizer/UBSan, all inputs within bounds', 'Exhaustive within the stated input bounds; three ways of loading (globally, over a collection in use, into a playing stream) alternate over the cases.',
 'as C01 with collections: each case is loaded in one of three situations, notes are played over it on melodic and drum channels, everything is closed; leak accounting and the good-file probe are the oracle, plus ASan/UBSan and a CPU limit.')

prop('C03', 'Running out of memory is reported and harms nothing',
 'When an allocation fails during any call, that call reports an error, nothing stays allocated because of it, all other streams play on as if the call had not been made, and the stream concerned can at least be closed. Once memory is available again the same calls succeed.',
 ['faults', 'histories'], 'every sequence of life-cycle operations up to depth 6 (8) in which any operation may meet the failure of its 1st to 4th allocation; start-up and loading a collection with every single allocation failing',
 'No test makes an allocation fail.',
 [PUB, VM, SMF, MDLS, HOST], [('clean-up on failure in the public calls', PUB), ('allocation of synthesiser and parser data', VM), ('allocation while loading collections', MDLS)],
 EXPL + ' with allocation failures as further transitions', 'Every failure point within the bounds, in every reachable life-cycle state within the bounds; oracle as C08.',
 'the model of C08 with the k-th allocation of any operation failing as an extra dimension of the alphabet: the call must fail if it met the failure, the model state must be unchanged, and everything C08 demands must hold from then on, including the teardown of every state without leak.')

prop('C04', 'Read errors stay confined to the file they happen in',
 'When reading a file fails at any moment, for once or for good, yields too little, or the file shrinks, every call terminates, at most the frame in which it happens is lost, other streams sound on unchanged, the stream concerned can be closed, and the instance is then as good as new with nothing left open or allocated.',
 ['faults'], 'five scenarios (playing, seeking and measuring, repeating with metadata, loading collections globally and for a file); every single read fails once, for 2 or 4 reads or for ever in 3 ways, and the file shrinks at every size query',
 'No test makes a read fail.',
 [HOST, SMF, MDLS, PUB], [('read primitives and end of file', HOST), ('error state of the parser', SMF), ('clean-up of the collection parser', MDLS)],
 ENUM + ' under AddressSanitizer/UBSan, all fault points of the scenarios', 'Every read of every scenario is a fault point; the note of another live stream is decoded from every frame; a good file must play bit-identically afterwards.',
 'enumerates all fault points of the scenarios on an ASan build; while the faulty file is in use a DC note of a live stream must stay at its exact level in every rendered frame and at most two frames may report an error; then four files must be openable, the probe song must play bit-identically and shutdown must leave nothing allocated.')

prop('C05', 'A MIDI byte stream means exactly the messages it contains',
 'Live MIDI data has exactly the effect of the MIDI 1.0 messages it encodes: running status, velocity zero, interleaved real-time bytes, system common messages, aborted messages and system exclusive messages are understood as the standard says. Bytes that form no message have no effect on what is heard.',
 ['inputs'], 'all sequences of up to 6 (8) of 27 byte tokens, and of up to 7 (10) of 16 bytes inside a system exclusive message, compared through the audio and through further probing messages',
 'The tests never write live MIDI bytes.',
 [MIDI, L + 'eas_midi.h', IM], [('byte parser', MIDI), ('SysEx state machine', MIDI), ('message dispatch', MIDI)],
 EXPL + ' in lockstep with a reference tokenizer', 'Two instances of the real code: one gets the raw bytes, one only the canonical messages found by an independent tokenizer; their audio must be identical bit by bit.',
 'explores all byte sequences over an alphabet with one representative per class of byte; oracle: an independent reference tokenizer of the MIDI 1.0 byte protocol feeding complete messages to a second instance; sound of both must be identical in every frame.')

prop('C06', 'How live MIDI data is cut into writes does not matter',
 'Writing the same bytes to a live MIDI stream in one call or in any number of pieces gives the same sound. A write never changes the caller\'s buffer and never reads outside it.',
 ['inputs', 'histories'], 'ten byte streams of 14 to 17 bytes covering every kind of message, all 2^13 / 2^16 ways to cut each',
 'The tests never write live MIDI bytes.',
 [PUB, MIDI, IM], [('per-stream parser state', MIDI), ('write loop', PUB)],
 ENUM, 'All ways of cutting the given streams; equality of the audio with the single write, bit by bit.',
 'enumerates all cuts of each stream; the pieces lie in exactly sized heap blocks so that over-reads are seen; oracle: the audio of one single write.')

prop('C07', 'A MIDI file sounds like its events sent at the times of its tempo map',
 'Playing a Standard MIDI File gives the sound of its channel and system exclusive events sent live, in order, at the times which the division and all tempo changes of all tracks give them; when tempo, time signature and GM System On all stand at its very start (a setup bar), the time up to the first note is left out. How the file encodes these events (format 0 or 1, split into tracks, running status, meta events, delta-time encodings, unknown chunks, oversized headers, missing end marks) does not matter. The note count reported is the number of notes played so far.',
 ['inputs'], 'families of small songs: event tuples x tick positions x tempo changes x divisions x distributions over tracks x encodings; all setup bars of 4 events from 9 kinds',
 'The tests compare the length of a few songs; they never compare sounds or timing of events.',
 [SMF, MIDI, PUB], [('tempo to tick conversion', SMF), ('track merging by next time', SMF), ('meta events', SMF)],
 ENUM + ' against an independent sequencer', 'The reference is an independent list sequencer feeding a live stream of the same library; audio must be identical bit by bit except within the documented rounding of ticks.',
 'every song is built from an event list by the harness; instance A plays the file, instance B gets every event live right before the frame containing its time; audio must be equal in every frame, and after every frame both report as many notes as were sent.')

prop('C08', 'Streams can be opened, used and closed in any order',
 'An instance offers four streams, files and live ones in any mix. Opening, preparing, using and closing them in any order works as long as a stream is free and fails cleanly otherwise; calls that do not fit the state of a stream are refused without effect on anything else. A live stream opened on a file shares its synthesiser. What sounds is always the sum of the open streams, and a closed stream gives back everything, so that an instance can be used without end and shut down at any moment without leaving memory allocated.',
 ['histories'], 'every sequence of 23 life-cycle operations over up to four streams up to depth 8 (9), each followed by closing all, opening four new streams and shutting down',
 'The tests open one file at a time and close it.',
 [PUB, VM, SMF, MIDI], [('stream table', PUB), ('synthesiser table and reference counts', VM), ('file-type detection closing refused files', PUB)],
 EXPL, 'Levels of DC instruments tell which streams sound; the allocator counts what is left.',
 'explores all operation sequences; the model holds kind, state, synthesiser and notes of every stream; the level of every frame must be the sum of the notes of the open streams; result codes, states and distinct handles are checked after every step; every state is also torn down and reused.')

prop('C09', 'Seeking leaves a file as if it had been played up to that point',
 'After a seek to an absolute or relative time, whatever was done before, the reported position is the target, the notes heard are those which start after it, and programs, volumes and pedals are those the file had set up to there. Seeking backwards, beyond the end, while paused and repeatedly are covered by the same rule.',
 ['histories'], 'every sequence of 13 seeks and renders up to depth 5 (6) on four songs, then played to the end; 4 ways of seeking to the very start after 1 to 60 frames, playing or paused, of 15 songs with notes at time 0',
 'The tests do one kind of seek per file and look only at the position.',
 [PUB, SMF, L + 'eas_pcm.c'], [('locate by re-parsing from the start', PUB), ('rewind', SMF)],
 EXPL, 'A model of position, sounding notes and channel state runs along; audio levels are decoded from DC instruments, so every frame tells exactly which notes sound.',
 'explores all operation sequences on the real library; the songs play DC instruments so that the level of each frame must equal the sum of the levels of the notes the model holds; location and state are checked after every step.')

prop('C10', 'A repeating file plays exactly as often as asked, each time from scratch',
 'With repeat count n a file is played n+1 times in all and then stops, with a negative count it never stops; every repetition sounds like the first, and the reported count is what is left. This holds for every sequence of setting the count, pausing, resuming, seeking and rendering.',
 ['histories'], 'every sequence of 11 operations up to depth 6 (8) on four songs, then played to the end; all counts from 0 to 299 and extreme ones on a very short song; 2160 songs that end with keys or pedal down (notes beyond the polyphony, gaps, repeats)',
 'The tests never set a repeat count.',
 [PUB, SMF], [('repeat handling at the end of the file', PUB), ('reset of the file parser', SMF)],
 EXPL, 'As C09 with the model extended by the repeat count.', 'as C09; the model predicts when the stream restarts and what is left of the count.')

prop('C12', 'The playback rate scales time and nothing else',
 'At playback rate r the events of a file are played at their times divided by r, for every r from 1/2 to 2 and every history of changing it; pitch and loudness do not change, the reported position runs r times as fast, and rates out of range are refused.',
 ['histories'], 'every sequence of 13 operations (5 rates, bad rates, renders, seek, pause, resume) up to depth 6 (8) on three songs',
 'The tests never set a playback rate.',
 [PUB, SMF], [('time window per frame', PUB)],
 EXPL, 'As C09 with the model extended by the rate.', 'as C09; the window of a frame in the model is frame length times rate.')

prop('C13', 'A paused file is silent and resumes where it stopped',
 'A paused file makes no sound and its position does not move however much is rendered; after resuming it goes on with exactly the events it had not yet played. States reported follow: a paused stream says so until resumed, a finished one can be neither paused nor resumed, whatever the history of pauses, resumes, seeks and renders.',
 ['histories'], 'every sequence of pause, resume, four lengths of rendering and three seeks up to depth 7 (9) on four songs, then played to the end',
 'One test pauses and resumes once and looks at the duration.',
 [PUB, SMF, VM], [('pause and resume flags taken up by the next frame', PUB), ('muting of voices', VM)],
 EXPL, 'As C09.', 'as C09, with the pause state in the model.')

prop('C17', 'A note sounds exactly from its note-on to its release',
 'Every note sounds from its note-on until its note-off, or until the sustain pedal of its channel is released if that is later; all notes off, all sound off, reset controllers and mode messages end what they should on their channel only. No history of notes and pedals leaves a note hanging, ends another one, or touches another channel or stream.',
 ['histories'], 'every sequence of 22 note, pedal and mode operations up to depth 6 (8), on two channels and two keys with doubled notes, alone, with a second stream present, with releases of up to 24 frames, and with 1 to 3 voices for 6 notes of different velocities',
 'The tests only play songs and look at their duration.',
 [VM, MIDI, DSY, WTS], [('voice allocation and release', VM), ('sustain pedal catching and releasing', VM), ('deferred note-off', VM)],
 EXPL, 'The set of sounding notes is decoded from the audio (DC instruments with distinct levels), left and right.',
 'explores all operation sequences with state merging; a set-of-notes model predicts the DC level of every frame; at every state all keys and pedals are released and silence must follow.')

prop('C16', 'Polyphony limits are kept and cost no more notes than they must',
 'Never do more notes sound than the overall limit and the limit of each stream allow, whatever the order of notes, limits, priorities, closes and resets. While a note fits, nothing else is silenced for it; when the limit is reached the newest note still sounds and exactly one other makes room, of the stream at its own limit or else of a stream of no higher priority. No voice is ever lost: after any history as many notes as the limits allow sound again.',
 ['histories'], 'every sequence of 34 operations up to depth 4 (quick) or 6 (thorough) and of 22 of them with two voices in use up to depth 6 or 7; resets with few voices; each state is then silenced, refilled to the limits and overfilled',
 'The tests never set a polyphony limit and cannot tell which notes sound.',
 [VM, PUB, WTS], [('voice allocation and stealing', VM), ('limits per stream and overall', VM), ('muting and retargeting of stolen voices', VM)],
 EXPL, 'Runs on a build with 8 voices (MAX_SYNTH_VOICES is a configuration constant of the library); levels are powers of two so the set of sounding notes is decoded from every frame.',
 'a model of two streams with 5 and 4 notes holds which are down; after settling, the decoded set must be within the limits, must contain every note if they all fit, and must contain the newest one; every state is released, must be silent, and is refilled to the limits, which finds lost voices.')

prop('C21', 'Streams do not disturb each other',
 'What one stream sounds like, where it is and what state it is in does not depend on anything done to another stream of the same instance: its notes, controllers, pedals and SysEx, seeks, pauses, rates, repeats, limits, volume, collections, opening and closing.',
 ['histories'], 'stream A live or file, stream B live, file or file with a live stream on it, either opened first: every sequence of 31 operations on B up to depth 4-5 (5-6), then A\'s script to its end; A and B in every two of the four places of the instance, up to depth 2-3 (3-4); drums with key groups on both',
 'No test plays two streams.',
 [VM, MIDI, PUB, SMF], [('voices shared between synthesisers', VM), ('deferred note-offs per synthesiser', VM), ('per-stream data and requests', PUB)],
 EXPL, 'B plays instruments of level zero, so whatever is heard is A.',
 'A plays a fixed script (notes, pedals, bends, volumes, drums, notes shorter than a frame) alone once; then for every sequence of operations on B each frame, the location and the state must be bit for bit those of A alone.')

prop('C22', 'The load limit changes when work is done, not what is played',
 'Under EAS_SetMaxLoad the frames rendered are bit for bit those rendered without it: a call that has used up its load produces nothing and the next one goes on where it stopped, so that events are neither lost nor moved and every frame is finished after a bounded number of calls. Seeking and measuring the length are not cut short. Render calls of a wrong size are refused, report no samples and have no effect; no call writes outside the buffer of one frame.',
 ['histories'], 'every sequence of load limits, wrong render sizes, seeks, pauses, a second file (also a busy one in the neighbouring slot) and live notes up to depth 6 (8)',
 'The tests never set a load limit.',
 [PUB, VM, SMF], [('work load accounting', PUB), ('partial parsing of a frame', SMF)],
 EXPL + ', two instances in lockstep', 'An unlimited instance is the reference; a location or seek in the middle of an unfinished frame has no counterpart there and is not asked.',
 'the same operations are applied to a limited and an unlimited instance; sound, position, state and results are compared at every finished frame, buffer guards at every call.')

prop('C15', 'Loudness controls each do their own job',
 'Velocity, channel volume, expression, master volume message, stream volume and instance volume each raise the level monotonically, from silence at zero to full level at their maximum, independently of each other and of when they were set; pan moves the sound between the sides without silencing both or exceeding full level. Only the values set last count, on that channel and stream only; values out of range are refused and change nothing.',
 ['inputs', 'histories'], 'all pairs of values of any two controls, all pans, all built-in programs and drums at 6 values of each control, every sequence of 23 operations up to depth 6 (7)',
 'The tests set the volume once and do not measure the level.',
 [VM, WTS, DSY, PUB, L + 'eas_pan.c', L + 'eas_mixer.c'], [('gain of a voice', WTS), ('gain of a DLS voice', DSY), ('master volume', PUB)],
 EXPL + ' and exhaustive enumeration of the value pairs', 'Levels are read from a DC instrument at full scale; a master volume message and the stream volume set the same gain, of which the last one counts.',
 'enumerates the product space of every two controls on the real library and checks order, extremes and side balance at every point; explores all sequences of settings and compares with a fresh instance given the final settings directly.')

prop('C18', 'A channel sounds as its settings say, however they came about',
 'What a channel sounds like is a function of its present settings: bank and program, bend, bend range, fine and coarse tuning, volume, expression, pan, modulation, pressure, sends, pedal, selected parameter. No order of messages, superseded value, other channel, unknown controller, GM System On, or note played before leaves a trace; Reset All Controllers and GM System On restore exactly what they should.',
 ['histories'], 'every sequence of 18 bank and program operations up to depth 4 (6), of 26 registered parameter and bend operations up to depth 4 (5), of 54 controllers up to depth 3 (4), and of all 68 up to depth 2 (3), on a melody and on the drum channel',
 'The tests only play songs and cannot tell what they should sound like.',
 [VM, MIDI, WTS, DSY], [('channel state', VM), ('registered parameters', VM), ('program changes', VM)],
 EXPL + ', two instances', 'The model holds the settings; the messages a fresh instance gets are made from it alone.',
 'in every state reached the second instance gets the settings of the model in one canonical order; notes, releases, data entries, program and bank changes must then sound bit for bit alike on both, on this and another channel.')

prop('C24', 'A DLS collection sounds as it is written',
 'With a collection loaded, a note sounds exactly the regions of the instrument selected by bank and program whose key and velocity ranges contain it, each with its own wave, gain and loop, sample by sample as stored; banks and programs the collection lacks fall back as for the built-in set; drum instruments play on rhythm channels only; a note of a key group cuts the others of that group on its channel and no other note, however many notes were played and stopped before. A collection, region or articulation that carries a condition counts exactly when the condition, evaluated in 32 bits as the format defines its operations and queries, is true.',
 ['inputs', 'histories'], 'every key and velocity of overlapping, layered and velocity-split regions; all collections of 9 instruments with 60 selections; gains in 0.1 dB steps at region and wave; all waves up to 12 samples, 8/16 bit, two rates, every loop, set by wave, region or both; key groups: every sequence of 27 operations up to depth 5 (6), and up to 300 (600) notes ended in 4 ways before; every condition of one and two of 28 symbols on each of 5 things, of three symbols, of any two operations on three constants and of up to 8 operands on a region',
 'No test loads a collection.',
 [MDLS, DSY, VM, WTE], [('region and wave sample conversion', MDLS), ('region search and key groups', VM), ('DLS voice start and gain', DSY)],
 ENUM + '; key groups: ' + EXPL, 'Loops of a single sample are left out; the power of two of the gain is taken to within 6%, as the library interpolates it.',
 'collections are generated; the oracle computes from the same description which regions must be heard and at what level, or every sample; every case runs on the real parser and synthesiser.')

prop('C25', 'Notes sound at the pitch asked for',
 'The pitch of a note is its key relative to the unity key of its wave, plus sample rate, fine tune of the wave and instrument tuning, plus pitch bend times bend range, fine and coarse tuning and transposition, within a few cents, whatever the order in which they were set and also while the note sounds; rhythm channels ignore transposition and tunings; other channels have no influence. On built-in instruments settings that add up to the same pitch sound bit for bit the same.',
 ['inputs', 'histories'], 'all keys; all bend MSBs at ranges 0 to 12 (24); all fine tunings at 7 coarse ones; all transpositions; 21504 waves of 7 rates, 6 tunings, all unity keys, 4 intervals; 2916 combinations; every sequence of 16 operations during a note up to depth 5 (7); 7 pairs of equal settings on all programs',
 'No test measures a pitch.',
 [VM, WTS, DSY, MDLS, L + 'eas_math.c', MIDI, PUB], [('pitch of a voice', WTS), ('pitch of a DLS voice', DSY), ('bend and tuning of a channel', VM), ('sample rate to cents', MDLS), ('cents to phase increment', L + 'eas_math.c')],
 ENUM + '; during a note: ' + EXPL, 'Tolerance 3.5 cents plus the resolution of the measurement (one sample).',
 'waves carry a step at a known sample; the output sample at which it is heard gives the speed at which the wave was read, to be compared with the sum of all settings.')

prop('C11', 'The length reported for a file is how long it plays',
 'EAS_ParseMetaData reports the duration of a file from its divisions and tempo map over all its tracks, without a setup bar, at whatever moment it is asked and whatever rate, repeat count or position the file has, and leaves the file at its start, ready to be played in full with these settings.',
 ['inputs', 'histories'], '228096 files (11 divisions, 8 x 8 tempi, change and end at 9 x 9 ticks, 4 track layouts), the short ones played to the end; songs of up to 300000 events; 4 songs, one with a setup bar, and every sequence of 14 operations up to depth 6 (7), each state measured and played to the end',
 'The tests measure three fixed songs, right after opening them.',
 [SMF, PUB], [('tick length from tempo and division', SMF), ('parsing to the end and resetting', PUB)],
 ENUM + '; at any moment: ' + EXPL, 'Tolerance 2 ms; files of more than 8388 s (beyond what the library can represent) and whether a measured file stays paused are left open.',
 'the oracle computes the length from the description of the file, with the rounding of the tick to 1/1024 ms that the library documents; the state machine of C07 to C10 predicts what is played afterwards, frame by frame.')

prop('C20', 'Instances share nothing and fresh memory does not matter',
 'What an instance returns and sounds like depends on the calls made to it alone: not on other instances in the process, living or gone, on the order in which their calls are interleaved, or on what newly allocated memory or the stack happens to contain.',
 ['histories', 'schedules'], 'every interleaving of the scripts of any two of 6 kinds of client (10 steps each); every sequence of 24 operations on another instance up to depth 5 (6), before, between and after; 257 memory fills x 4 stack fills x 6 clients',
 'The tests use one instance at a time.',
 [PUB, VM, MIX, REV, CHO, MDLS, HOST], [('instance data', PUB), ('per-synthesiser data', VM), ('initialisation of allocated data', HOST)],
 EXPL, 'The library is not thread safe and does not claim to be: calls are interleaved whole.',
 'each step of a client returns a hash of all results, positions, states and samples; run alone it gives the reference, and every interleaving must reproduce it step by step. Fresh blocks and the stack below the call are filled with every byte value.')

prop('C28', 'Every text of a file is reported once, when it is passed',
 'The meta data callback gets each title, copyright, text and lyric of a file, in order, once, in the frame in which it is passed or while measuring the file, cut to the buffer registered, terminated, with the user data given last. Nothing else is reported, nothing is written outside the buffer, and the sound and timing of the file are the same with and without a callback.',
 ['inputs', 'histories'], 'all 128 meta types x 12 lengths x 7 buffer sizes x 3 places; a song of 9 texts and every sequence of 14 operations up to depth 6 (8)',
 'No test registers a callback.',
 [SMF, PUB], [('meta event parsing', SMF), ('registration', PUB)],
 ENUM + '; when: ' + EXPL, 'A seek re-parses the file from its start and reports the texts it passes again; buffers of no or negative size are not registered.',
 'the oracle knows the texts of the generated file and when they are passed; the log of the callback must agree in every state, and the audio with that of the same file without a callback.')

prop('C23', 'Reverb and chorus do what their parameters say',
 'While bypassed, or at wet or level 0, the effects leave the sound exactly as it is. The reverb adds its sound scaled by the wet level to the direct sound scaled by the dry level; the chorus adds the sound of 10 ms before, varied by depth (0.05 ms) at rate (0.05 Hz) around that, scaled by level, turning differently on both sides. The values set last count from the next frame on and are what is reported, a preset being one way to set them; others are refused. Silence stays silence, tails die away to under 1/100 of full scale within seconds, and nothing wraps around.',
 ['inputs', 'histories'], 'all wet levels x 4 rooms x 5 dry levels, quiet and beyond full scale; all 1886 rates and depths x 3 levels and the presets, followed over two turns, 538 chorus levels x 4 presets, quiet and beyond full scale; tails of 216 sounds in 4 rooms; every sequence of 29 settings, notes and frames up to depth 4 (5)',
 'The tests never switch the effects on.',
 [REV, CHO, MIX, PUB], [('reverb levels and presets', REV), ('chorus delay line', CHO), ('effect order and parameters', MIX)],
 ENUM + '; settings: ' + EXPL + ', three instances', 'What a room sounds like is not specified beyond linearity, decay and its being bigger than another; what was in the delay lines before a bypass may be heard afterwards.',
 'the direct sound is known from an instance without effects, the reverberation alone from one at gain one: the output at any wet and dry level must be their weighted sum to one unit. Pulses are followed through the chorus and their delay and size measured over two turns. In every state of the settings the sound must be bit for bit that of an instance which was given just the settings in force, in one fixed order, and the values reported those of the model.')

prop('C14', 'Settings keep the value last given; refused ones change nothing',
 'Every setting of a stream or of the instance (volume, polyphony, priority, repeat count, transposition, rate, master volume, voice limit, effect parameters) is reported as last accepted, whatever else is done to that or other streams: playing, pausing, seeking, measuring, reloading collections, resetting by message. A value outside its range, or a setting made on a stream that is not prepared or does not have it, is refused and leaves the whole state of the library bit for bit as it was. Asking changes nothing.',
 ['inputs', 'histories'], 'every sequence of 150 operations (all settings at, inside and outside their borders, two files, life-cycle operations in between) up to depth 3 from freshly opened files, up to 2 (3) from prepared and from finished ones',
 'The tests set a few parameters once and ignore what is reported afterwards.',
 [PUB, VM, REV, CHO], [('per-stream parameters', PUB), ('voice manager limits', VM), ('effect parameters', REV)],
 EXPL, 'A polyphony of 0 or above the number of voices is reported as 0, no limit of its own; the repeat count counts down while playing. Audible effects of the settings are the business of C12, C15, C16 and C23.',
 'the model is the table of values last accepted; after each operation every setting of every stream is asked for and compared, and a refused operation must leave the hash of the complete memory of the library unchanged.')

prop('C19', 'System exclusive messages: reset, master volume and SP-MIDI do as specified',
 'GM System On and GM2 System On reset their stream: channels, Master Volume and SP-MIDI. Master Volume scales its stream by the square of its value, in addition to the stream volume, until the next reset or restart of the file. With an SP-MIDI table in force a channel plays if and only if the table lists it with a polyphony within the lower of the limits of stream and instance, which is decided anew whenever a limit changes; a group of channels that keeps to its share of the voices never loses a note, whatever the others play. Messages for other devices, unknown, truncated or wrong have no effect (a wrong SP-MIDI message leaves none in force). Other streams notice nothing.',
 ['inputs', 'histories'], '20 messages and notes on 4 channels, 5 polyphonies, 4 voice limits, 2 volumes, restart and a second stream, every sequence up to depth 5 (6); 4 tables x 20 operations (notes on 7 keys of 3 channels, all off, table again, pause, all notes at once) up to depth 6 (8), in two synthesiser slots; released notes and muted channels across streams',
 'No test sends a system exclusive message.',
 [MIDI, VM, WTS], [('system exclusive parser', MIDI), ('MIP table, pools and muting', VM), ('gain of a channel', WTS)],
 EXPL, 'Notes are silenced with a short ramp; which of its own voices a group gives up is left to C16.',
 'the oracle works out from the messages and limits in force which channels are audible and at what gain; the sound of each is checked by its own frequency, in every state. For shares, the notes that must sound are computed from the table and the notes asked for.')

prop('C26', 'Which collection a stream plays, and how long collections live',
 'A collection loaded for the instance is played by every stream opened afterwards, one loaded for a file by that file and the live streams on it from then on, ending the notes of the old one; a stream opened before keeps the collection it has, and its sounding notes, whatever is loaded or closed later, until the last stream using it is closed. A collection that is refused changes nothing. The collection file is needed only during the call. Memory of a collection goes with its last user, and none is left after EAS_Shutdown.',
 ['histories'], 'every sequence of 29 operations (three collections of different make-up for the instance or for two files, refused ones, opening and closing of live streams and files with live streams in any order, notes) up to depth 6 (8)',
 'No test loads a collection.',
 [PUB, VM, MDLS], [('loading for a stream', PUB), ('global library and reference counts', VM), ('reference counts', MDLS)],
 EXPL, 'Streams without a collection of their own play the built-in sounds, which is checked only by their being heard.',
 'the model knows which collection each synthesiser holds and which notes sound; collections and streams are told apart by their levels. In each state reached every stream must then play its collection, and after closing everything exactly the blocks of the collection in force may be left.')

prop('C27', 'A song inside another file plays as it does alone',
 'With header search on, a file is opened if and only if it contains the four bytes that begin a song, and it plays from the first place they stand at, by all operations and for ever exactly like a file that consists of the song alone: data before and after it has no effect on sound, positions, length, states or seeking. With header search off only files that begin with a song are opened. A refused file leaves nothing behind.',
 ['inputs', 'histories'], 'all texts of up to 6 (8) letters of the header and another before a song; songs after 0 to 1029 bytes and before 6 lengths of data; 3 wrapped files, one of them up to 2^21 bytes into the file, and every sequence of 15 operations up to depth 6 (8)',
 'All test files are bare songs.',
 [PUB, SMF, HOST], [('header search', PUB), ('offset of the song', SMF), ('file layer', HOST)],
 ENUM + '; operations: ' + EXPL, 'Only RIFF style containers are common in practice; a false header before the song makes it be refused.',
 'the wrapped and the bare file are played side by side in two instances, which must agree in every result, position, state and sample.')

prop('C29', 'DLS articulation does what its connections say',
 'Volume and pitch envelopes pass through delay, attack, hold, decay, sustain and release in the times and to the levels given, scaled by velocity and key where connected, whenever the key is released; the sustain pedal holds a note released under it and catches one released just before that is not below its sustain level; vibrato and tremolo have the frequency, delay and depth given, from wheel and pressure where connected; tuning, key tracking, pan, velocity sensitivity, filter cutoff and resonance come out as given, whichever sources add up to them. Values beyond what there is count as the nearest there is. A region with articulation of its own uses that, another one that of its instrument, unknown connections do not count. A note sounds, sample for sample, as if its voice had never played another, however that one ended.',
 ['inputs'], '19440 volume and 19440 pitch envelopes with releases at 4 moments and 5 kinds of scaling; 3456 envelopes under 6 uses of the pedal; 6912 settings of the oscillators; 3200 tunings; 2032 pans; 127 velocities; every pair of articulation lists of up to 3 of 8 connections; 55 cutoffs x 4 resonances, made up in 5 ways; 2016 pairs of instruments, the second after notes of the first that ended in one of 7 ways; 3600 ways to make up the depth of an oscillator from a fixed part, the wheel and the pressure; 450 settings made just before a note; 14 limits, each exceeded by 4 values',
 'No test loads a DLS collection.',
 [DSY, MDLS, WTE, WTS], [('envelopes, pitch, gain and filter', DSY), ('connections to parameters', MDLS), ('oscillator', WTS), ('filter', WTE)],
 ENUM + ', each followed frame by frame', 'Times have a resolution of one frame per stage, levels of 0.5 dB; cutoffs below 200 Hz and above 7 kHz are left open. A decay of no time with a sustain level below full is left open: the code stays at full level, on purpose as it seems.',
 'the oracle is the definition of the DLS articulation, evaluated as an interval for the time uncertainty; levels are measured with a constant wave, pitch with a rising one, the filter with a sine of 1 kHz.')

prop('C30', 'The built-in synthesizer plays a sound library as it describes its instruments',
 'Bank and program select the instrument the library lists, else that of the default bank, else its first program; the key, after coarse tuning and transposition, selects the first region that covers it, if any does. Volume follows the linear attack, exponential decay, sustain and release of the region, velocity squared, region gain and the oscillator, never above full scale; pitch follows tuning, envelope, oscillator, mod wheel and pressure; a wave plays once or through its loop, sample by sample; pan and filter come out as given. The sustain pedal holds a note released under it, and catches one released just before that has not fallen below its sustain level. A note ends the notes of its key group on its channel, and is heard itself whatever the polyphony. A library of another format is refused and changes nothing; one set for a stream ends its notes and starts it afresh, one set for all counts for streams opened later, and without a library there is silence. A note sounds, sample for sample, as if its voice had never played another, however that one ended.',
 ['inputs', 'histories'], '4096 volume envelopes; 2160 envelopes with the pedal; 1215 pitch envelopes; 540 oscillator settings; 92416 bank and program selections; 9216 keys and ranges; 80 waves and loops; 2032 pans; 55 cutoffs x 4 resonances (these also after other notes); 2016 pairs of instruments, the second after notes of the first that ended in one of 7 ways; every sequence of 22 operations with 5 libraries and none up to depth 8 (11); every sequence of 9 notes and frames in key groups at polyphony 1, 2, 3 and 64 up to depth 7 (9)',
 'The tests play the built-in library only and compare no levels or pitches.',
 [WTS, VM, WTE, PUB], [('envelopes, oscillator, gain and pitch', WTS), ('programs, regions, key groups, library validation', VM), ('loops, interpolation and filter', WTE), ('libraries of streams', PUB)],
 ENUM + '; libraries and key groups: ' + EXPL, 'Levels have a resolution of 0.1 % of full scale; five or more repeats of a key within one frame may exceed the two voices a key has.',
 'the check builds sound libraries whose structures it takes from the headers of the library: constant, rising, sine and patterned waves and regions of distinct gains, so that level, position in the wave and the set of sounding regions can be read off the samples and compared with the definition of each parameter.')


FMTS = [L + 'eas_rtttl.c', L + 'eas_imelody.c', L + 'eas_ota.c']; XMF = L + 'eas_xmf.c'
prop('C31', 'Broken ringtones and XMF files never harm the process or the instance',
 'In a library built with its optional file formats (RTTTL, iMelody, Nokia OTA, XMF), whatever bytes a file of such a format consists of, opening, preparing, measuring, playing, seeking, repeating, pausing and closing it terminates with a result code, without reading or writing outside the library\'s memory, without undefined behaviour and without an endless loop. Texts handed out are terminated inside the buffer registered for them. Afterwards a good file plays as on a fresh instance, and closing everything frees everything.',
 ['inputs'], 'every file that differs from nine valid ones by a truncation, any one byte or any pair of bytes over 4 values, in 6 usages; every melody body of up to 4 (5) characters over 14 to 16 symbols; combinations of header fields; XMF folders nested 1 to 200000 deep',
 'The formats are compiled only when asked for; no test builds or opens them.',
 FMTS + [XMF, PUB], [('parsers', FMTS[0]), ('tree of nodes', XMF), ('file-type detection', PUB)],
 ENUM + ' under AddressSanitizer/UBSan, all inputs within bounds', 'Built from the sources in /repo with the defines of the optional parsers. WAVE, IMA and tone control sources are not among them.',
 'as C01, with the library configured by -D_RTTTL_PARSER -D_IMELODY_PARSER -D_OTA_PARSER -D_XMF_PARSER.')

prop('C32', 'A ringtone plays the melody it spells out',
 'In a library built with these formats, an RTTTL, iMelody or Nokia OTA tune plays exactly the notes its text or bits denote: pitch, octave, duration with its modifiers, tempo, rests, style (the share of a note that is silent), volume, octave, tempo and style changes inside the tune, references to patterns, repeats. It has the length and title reported, stops at its end, and plays the same melody whether played, located into or back, measured first, repeated, or paused and resumed, and is silent while paused.',
 ['inputs'], 'all single notes of each format in all octaves, durations, modifiers and spellings; every sequence of up to 4 (5) of 13 to 17 symbols of each format (RTTTL 3 (4)), songs of 3 patterns; all header field orders and values; 6 usages',
 'The formats are compiled only when asked for; no test builds or opens them.',
 FMTS, [('notes, tempo and defaults', FMTS[0]), ('octaves, volume, repeats', FMTS[1]), ('bit stream, patterns', FMTS[2])],
 ENUM + ', each followed frame by frame', 'Levels within 0.9 %; where the specifications leave defaults open (RTTTL without d or o, OTA default scale) nothing is claimed. A repeat count of n means n + 1 passes, as in the code.',
 'a tune is built twice from the same abstract items, as a file and as a timeline of keys and velocities; a collection whose notes are constants of different levels lets key and velocity be read off each frame.')

prop('C33', 'An XMF file plays as the song and sounds inside it',
 'In a library built with the XMF parser, a well-formed XMF file (1.00, 1.01, 2.00) plays bit for bit as the MIDI file inside it with the DLS collection inside it, if any, wherever and how deep in the tree the two are stored, in line or by reference, at even and odd offsets, with other contents around them; so also for length, texts, position, seeking, repeating, pausing, and beside other streams, whose sounds it does not touch. Closing it frees everything.',
 ['inputs'], 'every file of 3 versions x 3 contents x 16 placements x 4 kinds of other content x 4 paddings x metadata tables x 4 songs, in 7 usages; contents 0 to 98 folders deep',
 'The format is compiled only when asked for; no test builds or opens it.',
 [XMF, MDLS, SMF], [('tree of nodes', XMF), ('collection at an offset', MDLS), ('song at an offset', SMF)],
 ENUM, 'Packed (compressed) nodes are refused by the code and not covered, nor are trees of more than 100 levels.',
 'the same song and collection are played as a bare MIDI file with the collection loaded for it, in an instance of its own; all frames, lengths, texts, positions and states must agree.')

JET = 'arm-wt-22k/lib_src/jet.c'

prop('C34', 'JET plays its queue of segments as its manual says',
 'In a library built with JET, the segments of a JET file play in the order they were queued: each with its collection and transposition, as often as asked (for ever with -1), up to its end marker or end, where the next one starts while the rest of the old one plays on; a segment queued at any time before or after that is not forgotten, and playing ends with the last. One segment alone sounds exactly like the file it was made from. Tracks are muted at once or from the next repeat as asked; a triggered clip plays the next time its track reaches it, once, and nothing but triggers and mutes changes it. Pausing, clearing, closing and opening another file leave nothing behind. Every application event of what is played is reported once with segment ID, track, channel, controller and value, and status tells the current segment, its position and its repeats. Impossible requests are refused without effect.',
 ['histories', 'inputs'], 'every sequence of 18 operations (5 kinds of queueing, play, pause, 2, 7 and 40 frames, five mutes, clear, reopen, refused calls) up to depth 6 (7) from 4 situations; 6 segments x 3 collections x 3 transpositions against the file alone; clips of 3 IDs triggered at 980 pairs of moments in 14 settings; 512 sets of clips; 14 x 14 pairs among 96 tracks in 5 kinds of muting',
 'JET is compiled only when asked for; no test builds or uses it.',
 [JET, SMF, PUB], [('queue, repeats, mutes, clips, events', JET), ('muting of tracks, end markers', SMF), ('streams of segments', PUB)],
 EXPL + ' against a model of the queue', 'Borders of notes have a slack of two frames. The position is not claimed while JET_Status leaves it as it was (0).',
 'one tick of the segments lasts one frame; collection, key and segment of each sounding note are read off the level of the frame, so that the model knows at each frame what must and may sound. Alone, a segment is compared bit for bit with EAS_OpenFile of the same MIDI file.')

prop('C35', 'Broken JET files never harm the process or the instance',
 'In a library built with JET, whatever bytes a JET file consists of, and whichever allocation or read fails, opening it, queueing, playing, muting, triggering, asking for status and events and closing it terminate with result codes, without access outside the library\'s memory, undefined behaviour or endless loops, whatever the earlier calls returned. JET_CloseFile succeeds, silences it and releases everything; afterwards another JET file and an ordinary file play as on a fresh instance.',
 ['inputs', 'faults'], 'every file that differs from a valid one (thorough: two) by any one byte, any pair of the first 96 bytes over 4 values or a truncation; every sequence of 4 of 8 kinds of chunks with 16 declarations, in 6 usages; every single failing allocation or read',
 'JET is compiled only when asked for; no test builds or uses it.',
 [JET, MDLS, SMF], [('chunks and declarations', JET), ('collections inside', MDLS), ('songs inside', SMF)],
 ENUM + ' under AddressSanitizer/UBSan, all inputs within bounds', 'Calls before JET_Init are misuse and not made.',
 'as C31, with JET_INTERFACE defined.')

WAVF = [L + 'eas_wavefile.c', L + 'eas_pcm.c', L + 'eas_imaadpcm.c']
prop('C36', 'Broken WAVE files never harm the process or the instance',
 'In a library built with the WAVE parser and the IMA ADPCM decoder, whatever bytes a WAVE file consists of, and whichever allocation or read fails, opening, preparing, asking for the texts, playing, seeking, pausing, repeating, changing rate and volume and closing it terminate with result codes, without access outside the memory of the library, undefined behaviour or endless loops. Texts stay within the buffer given for them. Closing succeeds and releases everything, however many files are open or were opened before; afterwards an ordinary file plays as on a fresh instance.',
 ['inputs', 'faults'], '5 well-formed files: any one byte, any truncation in 8 usages, pairs of the first 96 bytes over 4 values; 2.7 million combinations of odd format and length fields; every sequence of 4 of 11 kinds of chunks; up to 20 files at once, 150 in a row; any failing allocation or read',
 'The WAVE parser is compiled only when asked for; no test builds or uses it.',
 WAVF, [('chunks', WAVF[0]), ('streams and seeking', WAVF[1]), ('ADPCM blocks', WAVF[2])],
 ENUM + ' under AddressSanitizer/UBSan, all inputs within bounds', '',
 'as C31, with _WAVE_PARSER and _IMA_DECODER defined.')

prop('C37', 'A WAVE file plays the samples it contains',
 'A PCM file (8 or 16 bit, mono or stereo) or a mono IMA ADPCM file sounds as its samples, linearly interpolated at its sample rate times the playback rate, left and right where they belong, at the volume of the stream in dB, and stops within the frame in which its samples end, wherever its chunks are and also if the data end before the file says so or the file is streamed. Pause fades out and keeps the place, resume goes on there, locate goes to the time asked for (ADPCM: the start of its block) and beyond the end ends the file, repeat starts over, and state and location tell the truth about all that. Two files at once give the sum of both. Texts and length are reported as they are in the file.',
 ['inputs', 'histories'], '7040 PCM and 17920 ADPCM files; 6 formats ending after any number of bytes; 303 volumes; 243 pairs of files; 7500 sets of texts; every sequence of 15 operations up to depth 6 (8) on a PCM and an ADPCM file',
 'The WAVE parser is compiled only when asked for; no test builds or uses it.',
 WAVF, [('format and data chunks, texts', WAVF[0]), ('interpolation, fades, end, locate', WAVF[1]), ('ADPCM', WAVF[2])],
 ENUM + '; control: ' + EXPL, 'Rates are within 0.03 % (with a playback rate: one cent), places after a locate within 3 samples, the location within 14 ms; the last two samples of a file may be cut off by its end.',
 'every output sample is compared with the interpolation of the source within an interval, for one rate that fits the whole file; ADPCM is decoded by an independent decoder. While it is controlled, a ramp on the left and a constant on the right tell the place and the loudness of every sample.')

prop('C38', 'sonivoxrender writes what the library plays, and says when it could not',
 'The command line program writes to its standard output exactly the sound the library plays for the files named, in their order, with the sounds, reverb preset and reverb level of its options, and exits with success only if all of it was written. A file or a collection of sounds that is missing or broken, an option out of its range or unknown, or an output that takes no more ends it with a message and a failure, after exactly the sound of the files before. Without reverb no file leaves a trace in the next.',
 ['inputs', 'faults'], 'every combination of 4 sets of sounds, 8 reverb options and 7 wet options with every sequence of up to 2 (3) of 7 files, good and broken (12768, 89600 command lines); an output that fails at every half frame of three runs',
 'No test runs the program; what it does depends on the combination of options, on the files before, and on when its output fails.',
 ['example/sonivoxrender.c'], [('options, set-up of the library, rendering loop and exit code', 'example/sonivoxrender.c')],
 ENUM + ', with the output failing at every point', 'The sound is the one the library gives for the same calls, whose own rightness is the business of the other properties.',
 'the source of the program is compiled into the check; every command line runs its main() in a child process with real files and a real standard output, limited in size to make writes fail at a chosen byte. The oracle plays the same files through the public interface of an instance of its own (without reverb: a fresh one for every file).')

prop('C39', 'The instruments of the built-in sound set sound, in tune, and end',
 'Without any sound file of the application, each of the 128 General MIDI programs sounds on every key of the range General MIDI recommends for it, at once or swelling within half a second, in tune (melodic instruments: within 32 cents), and about as loud as on the next key (8 dB). Organs, bowed strings, choirs, winds and leads keep sounding while a key is held, struck and plucked instruments and drums die away, and every note ends after its release. A program sounds the same on all 15 melodic channels and however it was selected (bank 0, GM2 bank 121, after GM System On, after another program); struck harder it is not softer. Keys 35 to 81 of channel 10 are drums, whatever program is selected there.',
 ['inputs'], 'all 128 programs on all keys of their recommended ranges (5975 notes held for three seconds and released); 128 programs x 15 channels x 5 ways to select them; 15 velocities on 3 keys of each program; 47 drums x 129 program selections',
 'The tests compare a few files with recordings, if at all; most programs and keys occur in none of them.',
 ['arm-wt-22k/lib_src/wt_44khz.c', L + 'eas_wtsynth.c', L + 'eas_voicemgt.c', L + 'wt_200k_samples.c'], [('programs, regions, tuning, articulations', 'arm-wt-22k/lib_src/wt_44khz.c'), ('pitch and envelopes', L + 'eas_wtsynth.c'), ('selection of programs and regions', L + 'eas_voicemgt.c')],
 ENUM + ', each note rendered to its end', 'Pitch is not claimed for tubular bells, timpani, orchestra hit, the lead in fifths and the programs from 113 on (percussion, effects). The samples of the six highest waves are missing from the sound set, so that the top keys of eleven programs are silent: known findings.',
 'independent of the tables: the recommended ranges are those of the General MIDI guidelines, pitch is measured by autocorrelation over an even number of periods at 30 ms and 0.5 s, levels by peaks and energies.')
