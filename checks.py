"""What each property's check runs: test groups, number of generated cases per
shard and tier, and the rule that makes a case non-trivial."""

ZONES = ['UTC', 'Asia/Shanghai', 'America/New_York', 'Australia/Lord_Howe', 'Asia/Kathmandu', 'Pacific/Apia', 'America/St_Johns', 'Africa/Casablanca']


def props(tests, quick, **kw):
    return dict(dict(pkg='props', tests=tests, quick=quick), **kw)


def srv(tests, quick, **kw):
    return dict(dict(pkg='srv', tests=tests, quick=quick), **kw)


CHECKS = {
    'C01': dict(
        runs=[props('^TestC01_', 60000, zones=ZONES)],
        rule='A case is a random message of a random built-in type with a random header, encoded and decoded by the library and compared field by field. '
             'Non-trivial: body fits and is not empty, or the header is sub-packaged. Distinct by type, reference body bytes and header.',
        assumptions=['GB18030 tables of golang.org/x/text are correct (shared by library and oracle)', 'Go standard library is correct']),
    'C02': dict(
        runs=[props('^TestC02_', 60000, zones=ZONES)],
        rule='A case is a random message with a random header whose bytes are computed by an independent reference encoder and compared with the library in both directions. '
             'Non-trivial: body of at least 8 bytes or at least one escaped byte. Distinct by frame bytes.',
        assumptions=['the reference layouts in harness/gen and harness/ref state the documented layouts']),
    'C03': dict(
        runs=[props('^TestC03_', 10000), srv('^TestC03_', 400)],
        fuzz=[('props', 'FuzzC03')],
        rule='A case is a hostile byte string (mutated valid frame, body with repaired or broken framing, raw noise, extra payload or stream of them) given to the decoder. '
             'Non-trivial: it passes the framing checks or has at least 4 bytes. Distinct by bytes.'),
    'C04': dict(
        runs=[props('^TestC04_', 20000)],
        rule='A case is a valid frame damaged in one generated way (single byte, insertion, deletion, truncation, broken escape, wrong length, damaged gzip data), judged by an independent parser. '
             'Non-trivial: the damaged frame differs from the valid one. Distinct by damaged bytes.'),
    'C05': dict(
        runs=[props('^TestC05_', 20000)],
        rule='A case is a message at, around or beyond a size limit of the wire. Non-trivial: it is beyond some limit or within a few bytes of one. Distinct by message.'),
    'C06': dict(
        runs=[props('^TestC06_', 50000, zones=ZONES)],
        fuzz=[('props', 'FuzzC06')],
        rule='A case is a frame (generated, or mutated and repaired) that is decoded, re-encoded and decoded again. Non-trivial: it decoded to a message with a body. Distinct by frame bytes.'),
    'C07': dict(
        runs=[props('^TestC07_', 4000), srv('^TestC07_', 300)],
        rule='A case is a message encrypted by the library or by an independent reference encryption and decoded with the right key, no key or a wrong key. Non-trivial: body not empty. Distinct by plain body.',
        assumptions=['crypto/rsa is correct']),
    'C08': dict(
        runs=[props('^TestC08_', 5000)],
        rule='A case is a sequence of frames, bad frames and stray bytes delivered to the codec in generated chunks, or a sequence of sends. Non-trivial: at least two items. Distinct by bytes and chunking.'),
    'C09': dict(
        runs=[srv('^TestC09_', 250)],
        rule='A case is a server with generated handler registrations (replaced, nil, panicking) and one to four connections sending generated messages concurrently in generated chunks; handler calls are compared with a model. '
             'Non-trivial: at least two handled messages. Distinct by traffic.',
        assumptions=['loopback TCP']),
    'C10': dict(
        runs=[srv('^TestC10_', 250)],
        rule='A case is one to three connections mixing undecodable messages and messages whose handler replies or sends, with changing terminal numbers; every byte the platform sends is compared with a model. '
             'Non-trivial: at least one undecodable message. Distinct by traffic.',
        assumptions=['loopback TCP']),
    'C11': dict(
        runs=[srv('^TestC11_', 500, shards=4)],
        rule='A case is up to three sessions sending up to several hundred messages each by send, reply and request, from one to six goroutines, in paced or barrier-started bursts, over a real connection. '
             'Non-trivial: several goroutines or a wrap-around of the numbers. Distinct by shape of the traffic.'),
    'C12': dict(
        runs=[srv('^TestC12_Requests$', 220, shards=6), srv('^TestC12_(Concurrent|Refused)$', 400, shards=2)],
        rule='A case is a history of requests, other sends and terminal answers (of all eight kinds; pending, stale, repeated, foreign, zero and odd serial numbers) on up to two sessions against a model of the pending requests, '
             'with callbacks that panic, request or send; or concurrent requests answered at once. Non-trivial: at least one callback has to run, or at least two concurrent requesters. Distinct by history.',
        assumptions=['loopback TCP']),
    'C13': dict(
        runs=[srv('^TestC13_', 400)],
        rule='A case is a history of connects, broadcasts, ten kinds of connection endings (also simultaneous), brief connections and churn during broadcasts, ended by stopping the server, possibly while terminals connect, with a panicking close handler or not. '
             'Non-trivial: at least one connection ends before the stop. Distinct by history.',
        assumptions=['loopback TCP']),
    'C14': dict(parallel=9,
        runs=[srv('^TestC14_Long$', 1, thorough=1, shards=1, shrink='1s'), srv('^TestC14_Keepalive$', 2, thorough=60, shrink='1s')],
        rule='A case is a server with a keepalive of 2 to 4 seconds and 40 to 90 scripted terminals (talking with messages of nine kinds at gaps up to just under the safe limit, stopping to talk, silent, dribbling an unfinished frame, with or without platform traffic) in real time, or ten servers with keepalives from zero or less (60 seconds) to far beyond any clock. '
             'Non-trivial: some terminals talk throughout and some do not. Distinct by script. Delays of the machine are measured and excused.',
        assumptions=['loopback TCP', 'the wall clock is not set during the run']),
    'C15': dict(
        runs=[dict(pkg='tmr', tests='^TestC15_History$', quick=20000, shards=6, shrink='3600s'),
              dict(pkg='tmr', tests='^TestC15_Concurrent$', quick=50000, shards=2, shrink='3600s')],
        rule='A case is a history of refreshes, removals, expiration changes and callback actions over up to 60 keys on a virtual clock (testing/synctest), or rounds of truly concurrent operations, '
             'judged against the allowed firing window of every refresh. Non-trivial: at least one firing among at least three events, or at least two concurrent workers. Distinct by history.',
        assumptions=['testing/synctest virtual time behaves as real time', 'callbacks return without blocking']),
    'C16': dict(
        runs=[props('^TestC16_', 4000, unprivileged=True)],
        rule='A case is a history of writes, full-queries and merges over several look-alike uploads against a map model, in an unprivileged process when the sandbox allows; merged uploads are read at once or later. Non-trivial: at least one merge. Distinct by history.',
        assumptions=['local file system semantics']),
    'C17': dict(
        runs=[srv('^TestC17_', 700)],
        rule='A case is one to three terminals sending interleaved media uploads (any part order, retransmissions with other data, surplus and damaged parts, whole uploads, other messages, reconnects) to a merging server, or one terminal over several connections at once; every answer and handler call is compared with a model. '
             'Non-trivial: at least one upload completes. Distinct by history.',
        assumptions=['loopback TCP', 'local file system semantics']),
    'C18': dict(
        runs=[props('^TestC18_', 80000)],
        rule='A case is a parameter value with its messages, a bit operation on random words, or a write/read script against a byte model. Non-trivial: non-empty value, offset within 32 bits, or more than one item. Distinct by content.'),
    'C19': dict(
        runs=[props('^TestC19_', 25000), srv('^TestC19_', 400)],
        rule='A case is a history of registrations and decodings against a model of the registry, or a location report mixing built-in, replaced, custom and unknown extras. Non-trivial: at least one custom message decoded, or at least two extras. Distinct by history or bytes.'),
    'C20': dict(
        runs=[props('^TestC20_', 40000, zones=ZONES)],
        rule='A case is a message carrying coordinates or times, or six date digits, in one of eight process time zones. Non-trivial: body longer than 8 bytes or coordinates not both zero; every digit case. Distinct by bytes.',
        assumptions=['time-zone tables of the Go distribution']),
    'C21': dict(
        runs=[srv('^TestC21_', 500, race=True, shards=4), props('^TestC21_', 1500, race=True, shards=2),
              dict(pkg='tmr', tests='^TestC21_', quick=3000, race=True, shards=2, shrink='3600s')],
        rule='A case is a server with one to four terminals used by two to seven goroutines at once (sends, replies, requests, shared broadcasts, handler registration, keys, closings, stop) while the terminals talk; '
             'or goroutines encoding and decoding shared messages; or a timer history; everything built with the race detector, which together with the end state is the oracle. '
             'Non-trivial: at least two goroutines and five operations (a firing among three events for timer histories). Distinct by plan.',
        assumptions=['loopback TCP', 'the race detector reports only true races and sees those whose two accesses happen in the run']),
    'C22': dict(
        runs=[props('^TestC22_', 20000, zones=ZONES)],
        rule='A case is a history of encodings and decodings (into fresh and used messages, with the input overwritten afterwards) of up to four generated messages, all earlier results looked at again after each step. '
             'Non-trivial: at least two steps. Distinct by history and first message.'),
    'C23': dict(
        runs=[props('^TestC23_Faults$', 6000, unprivileged=True, shards=3), props('^TestC23_Crash$', 8000, shards=2), srv('^TestC23_', 500, shards=3)],
        rule='A case is a history of part writes and merges of which some run under a file-size or file-handle limit or without permission to list, write or read (so that they fail half-way), compared with a map model; or a process writing and merging that is killed at a generated point, whose files are then examined; '
             'or a merging server under such limits whose answers and deliveries are compared with a model. Non-trivial: at least one operation failed, or the process was killed before its end. Distinct by history.',
        assumptions=['a file-size limit stands for a full disk', 'killing a process does not undo completed system calls (power loss is not covered)']),
    'C24': dict(
        runs=[srv('^TestC24_', 300)],
        rule='A case is a server with one to eight connections that talk and end in one of twelve ways (or stay until the stop), after which the goroutines and open files of the process are compared with those before. '
             'Garbage collection is off meanwhile, so that finalizers do not hide forgotten files. Non-trivial: at least one connection ended. Distinct by history.',
        assumptions=['loopback TCP', '/proc/self/fd']),
    'C25': dict(
        runs=[props('^TestC25_', 60000, zones=ZONES), srv('^TestC25_', 250)],
        rule='A case is a message of a random built-in type filled by reflection with arbitrary values, encoded plainly or with an arbitrary public key; or a live server that sends such messages to up to three terminals. '
             'Non-trivial: the canonical text of the message is longer than 40 characters; every live case. Distinct by content.',
        assumptions=['loopback TCP']),
    'C26': dict(parallel=9,
        runs=[srv('^TestC26_Slow$', 60, shards=5), srv('^TestC26_Reentrant$', 500, shards=3)],
        rule='A case is a server on which up to four things are stuck (handler, callback, close handler, upload handler, terminal that does not read) while up to three other terminals and their sessions do generated things that must complete; '
             'or a server whose handlers, callbacks and close handlers make generated, nested calls. Non-trivial: something is stuck, or at least one call is made. Distinct by history.',
        assumptions=['loopback TCP']),
    'C27': dict(
        runs=[props('^TestC27_', 40000), srv('^TestC10_', 60)],
        rule='A case is a documented body of a random type cut at up to 14 places, or a mutated body, decoded and encoded again; or a location report with one extra of a wrong length; or live connections receiving cut and otherwise undecodable messages among others. '
             'Non-trivial: at least one cut was refused, the mutated body was delivered, or a live connection received an undecodable message. Distinct by content.',
        assumptions=['loopback TCP']),
    'C28': dict(
        runs=[props('^TestC28_', 20000, shards=4), srv('^TestC28_', 25, shards=3), dict(pkg='tmr', tests='^TestC28_', quick=40, thorough=400, shards=1, shrink='3600s')],
        rule='A case is a body of a random type, mostly with its counts and lengths replaced by large numbers and possibly cut, decoded while the bytes allocated are counted; '
             'or a server with one to four connections carrying two to five generated bursts (up to 5000 messages each of ten kinds, unfinished frames, noise, reconnections) whose live memory is compared before and after; or a timer through which 12000 keys pass. '
             'Non-trivial: the body is not a plain valid one, or more than 1000 messages were sent. Distinct by content.',
        assumptions=['loopback TCP', 'runtime.MemStats counts exactly']),
    'C29': dict(
        runs=[props('^TestC29_', 20000)],
        rule='A case is a frame (valid, damaged by one or two edits, random, or with a short, non-decimal or incomplete header), decoded with or without a key; '
             'a generated message, its lists and texts around their limits and its header sometimes not sendable, encoded; or a date, extra, non-message, body size or header of which the library has to say what is wrong. '
             'Non-trivial: something is wrong with it. Distinct by content.'),
    'C30': dict(
        runs=[srv('^TestC30_', 250)],
        rule='A case is one or two servers that are started, stopped (also twice at once), started again (on the same port or another), started while running or in vain (busy port, impossible port, unknown network), given handlers while running or not, while terminals connect, talk (plain, encrypted, in uploads, in answers to requests) and leave, compared with a model after every step; '
             'or a server created with a private key of any size. Non-trivial: at least one restart, or a key that is not 1024 bits. Distinct by history or key.',
        assumptions=['loopback TCP']),
}
