"""Generates DESIGN.md. python3 tools/design.py"""
import os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD=r"""# Design

## Approach

Every property is decided by bounded *exhaustive* exploration of the real code: explicit enumeration of inputs,
operation histories, faults and schedules, each one executed on the implementation built from `/repo`'s working
tree and judged by an oracle. There is no separate model whose traces would have to be replayed: the transition
system that is explored *is* the implementation ("traces_validated_against_impl" in the evidence is therefore the
number of executions), and the oracle is a small reference written from the property (a reference decoder, a
reference multimap, a reference route matcher, ...), a differential run (fresh connection, unsplit stream,
connection alone) or a contract monitor.

* `mc/` — the explorer. A check is a set of *spaces*; a space is a deterministic function of a sequence of
  choices (`c.Choose(n)`). The explorer enumerates every choice sequence depth-first, split over the cores,
  runs the real code for each one and evaluates the oracle. Panics of the code under test are violations, an
  execution that does not end is caught by a watchdog (stateless replay of the same prefix) and is a violation,
  too. Before a violation is reported the failing sequence is re-run five times from scratch; it is written to
  `evidence/<id>.replay.json`, and `bash run.sh <id> replay <file>` runs it again.
* `mc/procs.go` — the same over worker processes, for the schedule checks.
* `srv/` — scripted connections (which bytes each read returns, where the connection ends or fails, how many
  writes succeed), observers, a strict response parser, and `ref.go`, the reference classification of streams.
* `vsched/` — controlled scheduler with blocking primitives (mutex, channel, wait group, timers) for C26 and C27;
  `vswitch/` — hand-off scheduler for C28; `vnet/` — fake listeners and connections.
  `tools/instr.sh`/`instr.go` instrument a *copy* of the current sources of the packages under test with a
  scheduling point before every statement, and replace sync, channels, go statements and net.Listen by the
  controlled ones. The copy enters the build through `-overlay`; nothing in `/repo` is instrumented.
* `stubs/` — stand-ins for `github.com/indigo-web/utils` and `github.com/indigo-web/chunkedbody`, which cannot be
  fetched offline (see Trust).
* `harness/<id>/` — the spaces and oracles of one property; they use exported (or internal-package) API only and
  enter the build via `go build -overlay`, so they judge what the code does and not how it is written.
* `run.sh <id> quick|thorough` — builds from /repo's working tree and runs. Quick: at most 240 s of exploration
  (typically 1–40 s), thorough: at most 780 s. If a budget ran out the space is recorded as not exhaustive in the
  evidence, never as exhaustive.
* `tools/props.py`, `tools/gen.py` — single source of `properties.jsonl` and `MANIFEST.json`.

## Trust and limits

* The two stand-in modules are written from their documented behaviour and from the way the repository uses them;
  with them, the repository's entire own test suite (not only the 37 offline tests) passes. Properties of bodies
  framed by chunks are relative to that parser.
* Bounds: lengths, depths, alphabets, preemption bounds are those given below. Alphabets consist of the bytes the
  code distinguishes plus neighbours and representatives; where a byte-level table is involved all 256 values (or
  all 65536 pairs) are enumerated.
* Schedules: sequentially consistent, preemption at statement granularity, up to the preemption bound given.
  Data races below statement granularity are out of reach here.
* TLS handshakes, the kernel's TCP, time-outs in real time and certificates are not explored: `net.Listen` and
  `tls.Listen` are replaced by fakes; the read deadline is observed as a call (C21).
* No property had to be declared not applicable.

## Properties

"""

# (id, what is enumerated, oracle, bounds, why tests cannot settle it)
D=[
('C01', 'Streams (23 hand-picked: plain, pipelined, bodies, malformed, cut short; generated heads from 14 lines; single-byte corruptions; requests around tight limits) × ways to deliver them: uniform pieces of 1–16 bytes by writes and by read-buffer size, all one-, two- and three-cut splits; every prefix followed by EOF or an error, alone or together with the data; × ways the handler reads bodies.', 'Differential: requests seen and bytes written equal those of the unsplit delivery.', 'two header lines/short streams for three cuts; thorough: three lines, all streams.', 'each resumable parser state has its own boundary behaviour; the tests use a few fixed sizes.'),
('C02', 'Requests generated from a grammar with what they denote: methods × targets × versions × line endings; up to 3 (4) of the listed header fields in any order × framing; all 2^n letter cases of the known names; all one-byte near misses of them; all 256 bytes in paths (escaped), queries, values, bodies; sizes around the pre-allocations; numbers of headers; pipelines.', 'The generating model (method, path, query, protocol, ordered headers, derived fields, body, one call per request).', 'see spaces', 'a dozen fixed requests do not cover combinations.'),
('C03', 'All strings over the significant alphabet in 10+ contexts (start, target, version, header name, value, Content-Length, chunk size...) up to 5–7 bytes (one more thorough); all 256-valued substitutions/insertions and all deletions at every position of valid requests × 3 deliveries; pairs of edits; every prefix × end kinds × read modes; failing writes.', '`srv/ref.go` says whether the stream is well-formed; malformed heads must give one error response of the class and no handler call, broken bodies an error; nothing is served behind; OnError exactly once; no panic, no hang.', '', 'crashes need short but unusual combinations.'),
('C04', 'For each limit (request line, header count, key/value length, key/value space, encodings, body size): limit values 1–12 (20), sizes from below to 3 above, pre-allocation, position of the element, histories of up to 2 requests at the limit, all one-cut splits and bytewise.', 'Served iff within; status of the limit; bodies never deliver more than the limit; same verdict as on a fresh connection unsplit.', '', 'off-by-one at each limit, growth and reset of buffers over a history.'),
('C05', 'All sequences of up to 3 (4) of the accessors (Bytes, String, Read of 0,1,3,..., Retrieve, Callback with and without error, JSON, Discard...) over framings (length, chunk shapes) × lengths × all cuts of the body; 5 (6) accessors over two deliveries; two bodies in a row; cut-short and malformed bodies; sizes to 5000.', "Reference cursor over the body's bytes; next request starts behind.", '', 'accessors share hidden state (stash, full-body buffer, pending data).'),
('C06', 'All pairs of requests (features × handlers × body modes), triples over a reduced set, pairs and triples against the inbuilt router, static and dynamic.', 'Differential: same request as first on a fresh connection.', '', 'each field of the request/response/serializer needs its own reset.'),
('C07', 'All programs of up to 3 (4) response-builder calls × methods × versions × default headers; all codes 200–999; body sizes 0–300 (1200) × buffer sizes; subsets of default headers × overrides; all bytes.', 'Reference interpreter of the builder; strict independent response parser.', '', 'combinations of builder calls.'),
('C08', 'One request (methods × versions × Connection options and spellings × response kinds × bodies × deliveries) and a follow-up; pairs; pipelines of 4 (5).', 'RFC 9112 persistence rules; number and order of responses; no read behind the last response.', '', 'persistence depends on pairs version/option/response kind.'),
('C09', 'All reader scripts of up to 6 (8) answers out of 9 (short, empty, full, data+EOF, errors) × sizes × buffers × closers; HEAD; failures of the k-th write; all lengths 0–90 (300) × buffer sizes 14–63; standard-library readers.', "Bytes equal the script's; framing; closed exactly once; failure ⇒ connection given up and response incomplete.", '', 'fault points.'),
('C10', 'All strings over 7 significant bytes up to 7 (8); all 65536 escape pairs in contexts; all positions in long inputs; in place/given/new buffers, guarded memory around.', 'Reference decoder.', '', 'table-driven decoder: 65536 pairs.'),
('C11', 'All sequences of up to 6 (7) tokens; all 65536 escape pairs; all byte pairs; histories of 5 (6) Set/access operations; two requests on a server.', 'Reference parser.', '', 'lazy parsing with hidden state.'),
('C12', 'All sequences of up to 6 (8) tokens; all byte pairs; jar histories; two requests with several Cookie headers; all attribute combinations rendered.', 'Reference parser; independent Set-Cookie parser.', '', 'combinations of attributes.'),
('C13', 'All sequences of 6 (7) operations (Add ×4 names, Clear, Clone both ways, look) ; all name sequences; all byte pairs for case folding; clones after the buffers were reused.', 'Reference multimap.', '', 'histories.'),
('C14', 'All sequences of up to 6 (7) tokens; all byte pairs; lists of parameters; all byte pairs and lengths for escaping.', 'Reference functions.', '', 'inputs.'),
('C15', 'All 2^16 route tables over 4 paths × 4 methods × registration styles × dynamic or not; all 2^9 method sets; similar paths; duplicates; 1–70 routes.', 'Reference matcher, 404/405/Allow/HEAD/TRACE rules.', '', 'tables × requests.'),
('C16', 'All pairs over templates of depth 3, sets of up to 5 (7), parameter names, all template strings of up to 6 tokens; all paths of depth 4 incl. empty segments; two requests in a row.', 'Reference matcher.', 'Where a fixed segment leads to a dead end, both 404 and the other template are accepted.', 'tree shapes depend on the whole set.'),
('C17', 'All programs of 4 (5) router-building operations (use, routes, catchers, error handlers, aliases in 4 nested groups), 5 (6) over a reduced set; initialised twice / shared by two hosts; all errors.', 'Reference interpreter of the program.', '', 'order dependence of registration.'),
('C18', 'All request paths of up to 5 (6) tokens over a scratch tree, × 8 sites; all files × spellings; all bytes; descriptors.', 'Reference resolver; opens are observed by content (a secret beside the root).', 'no symbolic links.', 'spellings.'),
('C19', 'Host tables of up to 3 (4) entries × ~60 asked hosts × 0–2 Host headers × broken requests; all hosts of a grammar through the normaliser.', 'Reference matcher.', '', 'pairs of spellings.'),
('C20', 'All quads over 10 octet spellings, all octets 0–299 at all places, hosts × ports, all 512 cases of localhost, all strings of up to 6 (8) over an alphabet.', 'Independent recognisers.', '', 'the recognisers accept or refuse by position-dependent character classes; a test samples a few hosts.'),
('C21', 'All sequences of 5 (6) operations × answers of the connection.', 'Reference stream; call order (deadline before read).', '', 'what a read returns depends on every earlier Unread/Read and on where the connection broke.'),
('C22', 'All sources of up to 6 answers × read sizes, with resets.', 'io.Reader contract monitor.', '', 'the contract has to hold for any way a source slices its data and any way the caller slices its reads.'),
('C23', 'All insertion histories over a key universe with all lengths.', 'Reference map.', '', 'the layout depends on the whole insertion history (bucket growth by key length).'),
('C24', 'All registration histories.', 'Reference table, counting fakes.', '', 'histories: replacing, aliasing, sharing.'),
('C25', "All words over the methods' letters up to 4, all one-byte neighbours, all values; all versions; upgrade lists.", 'List of valid tokens.', '', 'near misses: one wrong byte in one method must not be accepted.'),
('C26', 'All schedules up to 1–3 preemptions of accept loops, handlers and control scripts over fake listeners.', 'Monitor of accept/handle/close/wait events; deadlock detection.', '1–2 servers, 1–2 connections.', 'schedules.'),
('C27', 'All schedules up to 2 (3) preemptions of Serve, stop requests, failing listeners, failing binds, serving again.', 'Monitor of hooks, causes, closed listeners; deadlock detection.', '', 'schedules.'),
('C28', 'All pairs of 12+ kinds of requests on one router with one preemption at every statement (of all packages), requests pairs, two preemptions where state used to be shared (thorough: all pairs).', 'Differential: response alone.', '', 'schedules.'),
('C29', 'All listener configurations (≤3 of each kind) × connection orders × requests.', 'Handler and encryption of the listener.', '', 'the pairing goes wrong only with several listeners, and by position.'),
('C30', 'All options alone, all pairs, all subsets of settable options; effects of each option at the server; applications tuned before/after.', 'Documented defaults; given values.', '', '39 options, of which any subset can be set.'),
('C31', 'Hijack points × accessors used before × bodies × all one-cut (two-cut) splits; broken bodies; inbuilt router; 1–3 upgrade offers in all spellings.', 'Reference stream behind the request; no server I/O afterwards; exactly one 101.', '', 'where the stream is handed over depends on how the bytes in front of it were split and read.'),
('C32', 'All paths over 4 bytes up to 9, all byte pairs, long ones.', 'Reference.', '', 'inputs.'),
('C33', 'All 65536 codes, all predefined errors, all media types.', "net/http's phrases, IANA table.", '', 'tables: one wrong entry out of hundreds.'),
('C34', 'Targets × hosts × ports × encryption; redirects; log lines for all bytes; all chains of 3 middlewares × handlers; simple router.', 'Reference of each middleware.', '', 'chains of middlewares compose; every one is fine alone.'),
('C35', 'Documents of a grammar × framings × splits × previous documents × content types; all cuts; tails; typed models; responses.', 'encoding/json.', '', 'documents arrive over a body that is split and framed in many ways.'),
('C36', 'Every prefix of each cached file × states of the other (whole, missing, empty, of another run); overwritten ranges; write failures (RLIMIT_FSIZE) at every byte from several initial states; histories of 3 runs and damages; obstacles; explicit pairs; listed domains with and without stored certificates.', 'Real handshake; crypto/tls on the files; outgoing requests are counted.', '', 'crash points: what an interrupted run leaves only matters to the next one.'),
]

# spaces added on top of the small-scope ones: a bug that needs a size or a long history is out of a small scope
X={
'C29':'Many listeners.',
'C28':'Connections which end in the middle of something, followed by others.',
'C24':'Two managers at once.',
'C01':'long elements (up to and beyond every buffer size) and long connections, delivered in pieces and through read buffers of a ladder of sizes. Long-lived connections: hundreds to thousands of requests of six kinds, each with a number of its own everywhere.',
'C02':'element sizes on a ladder (1, 2, 3, 4, 7, 8, 9, ... around every power of two up to 64 KiB), numbers of headers, pipelines of hundreds of requests. Long-lived connections: hundreds to thousands of requests of six kinds, each with a number of its own everywhere.',
'C03':'13 whole applications (virtual hosts, inbuilt router with groups, middlewares, mutators, static files) receiving hostile fields; long malformed elements.',
'C04':'announced lengths around machine words; large limits and histories of many requests at the limit, framed by length and by chunks.',
'C05':'bodies on a ladder up to hundreds of KiB, complete and cut short. Long-lived connections: hundreds to thousands of requests of six kinds, each with a number of its own everywhere. What follows a large body comes in the same read or in one of its own.',
'C06':'histories of tens of requests; large responses in front of small ones. Long-lived connections: hundreds to thousands of requests of six kinds, each with a number of its own everywhere. Requests of the same length, but of another structure, one after another.',
'C07':'large heads and bodies; responses behind large ones. Long-lived connections: hundreds to thousands of requests of six kinds, each with a number of its own everywhere.',
'C08':'large bodies, long option lists, lists split over several headers, pipelines of hundreds of requests. Long-lived connections: hundreds to thousands of requests of six kinds, each with a number of its own everywhere.',
'C09':'announced sizes that are too large or too small, torn writes (every number of bytes accepted before the failure), streams of hundreds of KiB. Streams whose reads are empty now and then; a server must not stop reading a sound stream.',
'C10':'inputs on the ladder, plain and escaped; neighbouring escapes.',
'C11':'many pairs, long names and values, long histories of queries on one connection.',
'C12':'long names and values, many pairs, many requests on a connection; expirations over the range of representable years.',
'C13':'many pairs, long names. Looking a key up in between is a choice of the program.',
'C14':'long values, long runs of characters to be escaped.',
'C15':'path lengths and numbers of slashes on the ladder, long request histories. Duplicates in the router, groups, nested groups and resources.',
'C16':'numbers and lengths of segments on the ladder, long request histories. Methods per template; histories go over a second connection too.',
'C17':'many middlewares, many entries. All paths are asked for forth and back over one connection; resources as groups; every method with middlewares of its own, in each way of registering.',
'C18':'all extensions of the media type table, large files. Files which change between requests, over the same connection and over another one.',
'C19':'all 65536 ports, all bytes in names, long names, many hosts, many requests.',
'C20':'all ports, lengths, all bytes in every position of a host.',
'C21':'reads and pushed-back data on the ladder, error kinds (time-out, temporary, wrapped), writes of megabytes.',
'C22':'sources of hundreds of KiB.',
'C25':'long tokens, one-byte neighbours of upgrade tokens, the tokens within whole requests.',
'C26':'faults of sockets: accept errors, close errors, set-deadline errors at every point.',
'C31':'large amounts of data behind a hijacked request. Hijacking over chunked bodies with trailers.',
'C34':'many requests through one chain; long hosts, paths and queries. Histories of redirects; panics with values of several kinds; the default logger.',
'C35':'documents of hundreds of KiB. Responses built in between each other.',
}
TAIL=r"""Every evidence file lists the spaces of the run with the number of executions, the choice points and whether the
space was exhausted.

## Deliberately unspecified

Where the documentation and the code leave room, the oracles accept every reasonable outcome:

* C05: after an error of the body, further accessors may report any error, but never data.
* C12/C07: the spelling `MaxAge=` of the cookie attribute is pinned by the repository's own serializer test.
* C15: aliases match paths without a trailing slash only (mutators run before normalisation); a server-wide
  `OPTIONS *` is documented, but unimplemented; the order within Allow is unspecified.
* C16: no backtracking is promised: where a fixed segment leads to a dead end, both 404 and the dynamic
  template are accepted.
* C18: names containing ".." may be refused; .txt isn't in the media type table.
* C20: "[localhost]", "[1.2.3.4]" and IPv6 zones.
* C21: returning data together with the error is accepted, as is returning them one after another;
  a write of nothing needn't reach the connection.
* C26: "many connections" is free-running (goroutines aren't controlled there); only the number is enumerated.
* C28: sibling routes are kept in a map with random order, so each kind of request is mounted one level deeper.
* C04: names longer than the key space allows are refused with either of the two statuses that fit.
* C25: upgrade tokens in mixed case (RFC 9110 compares them case-insensitively, the code knows two spellings).
* C31: hijacking after an upgrade; several Upgrade header lines; h2c-preferred offers; persistence after an
  upgrade that would otherwise close.
* C34: RequestsLog also logs "Unknown " at the end of a connection; origin-form targets only.
* C36: whether certificates already stored are presented for domains which aren't listed (autocert does), two
  applications which start at once on one cache.
* C35: jsoniter accepts NUL behind a document; left out.

## False alarms met and corrected

* C28: the order of default headers and of Allow is that of a map: compared as sets.
* C34: normalisation of trailing slashes in front of redirects; exact parse error values: property reworded.
* C30: the distribution of key lengths over the key space isn't promised: the check asks for total space only.
* C24: whether coding buffers are zeroed isn't promised: removed.
* C09: a chunk may be written in several pieces, so any part of it may have arrived when a write fails.
* C05/C09: readers which return (0, nil) forever: bounded by the script, the code may give up or go on.

## Crashes

A Go fatal error or a panic outside of an execution (e.g. a concurrent map access, a stack overflow, a panic of a
goroutine the code started) ends the harness. `tools/crash.py` looks at the trace: if the code under test is in the crashed goroutine,
run.sh reports it as a violation with the trace as replay, otherwise it exits with 2.

## Genuine defects

All defects the checks found on the original tree were small enough to repair; each is one "fix:" commit in
/repo, listed with its property in `known_findings.txt`. There are no open (known) findings. Each was found by the check
of its property on the then current tree, which reports it again without the fix.

## Planted bugs

`seeded/<id>/` holds changes which compile, pass the repository's own tests and break one property. "Caught by" is the result
of running the quick checks with the patch applied (the check of the property itself first).

| id | property | needs | caught by |
|---|---|---|---|
"""
# caught by, besides the property's own check
ALSO={'s14-body-full-flag':'C06','s25-cookies-carry-over':'C07'}
MISSED={'s07-done-before-close':'the monitor did not look at connections at the return of Wait',
 's08-stopall-early':'no listener failed to close','s13-chunked-received':'histories had no Trailer header',
 's30-tree-methods':'C16 had no methods per template','s33-json-buffer':'C35 wrote every response before it built the next one',
 's25-cookies-carry-over':'C06 had no attachment together with a cookie'}
AFTER=r"""
Beside these, some 150 hand-written changes and about 900 generated mutants (one operator, constant, condition or statement
changed at a time) were run against the checks without being kept. Those missed at
first led to the "sizes and histories" spaces above. The mutants that survive were looked at one by one: they don't change observable
behaviour (capacities, pre-allocations, unreachable branches) or change what is listed as unspecified.

Missed at first, caught since:

"""

def main():
    import sys, json
    sys.path.insert(0, os.path.join(ROOT, 'tools'))
    titles = {}
    for l in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(l)
        titles[p['id']] = p['title']
    o = HEAD
    for i, enum, oracle, bounds, why in D:
        o += '### %s - %s\n\n' % (i, titles[i])
        o += '* Enumerated: %s\n* Oracle: %s\n' % (enum, oracle)
        if i in X:
            o += '* Sizes and histories: %s\n' % X[i]
        if bounds:
            o += '* Bounds: %s\n' % bounds
        o += '* Beyond tests: %s\n\n' % why
    o += TAIL
    sd = os.path.join(ROOT, 'seeded')
    for n in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, n, 'meta.json')))
        o += '| %s | %s | %s | %s |\n' % (n, m['property'], m['needs'], ', '.join([m['property']]+ALSO.get(n, '').split()))
    o += AFTER
    for n in sorted(MISSED):
        o += '* %s: %s.\n' % (n, MISSED[n])
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(o)

main()
