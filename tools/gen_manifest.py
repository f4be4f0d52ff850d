#!/usr/bin/env python3
"""Writes MANIFEST.json. One row per property: technique, level, level_note."""
import json
T = {
'C01': ('monitor at the transport: strict independent frame and protobuf schema checker over generated builder programs and size sweeps', 'exploration', 'every observed unit of work was split and decoded by a parser written from the schema; trusts that parser and the sampling of programs and sizes'),
'C02': ('transport monitor comparing decoded statement arguments with an independent value model; boundary enumeration plus random values', 'exploration', 'all integer and varint boundaries, every length up to and around the length-prefix boundaries, random values of every supported type; trusts the value model'),
'C03': ('transport monitor comparing decoded literals in rows, assignments and criteria with an independent value model', 'exploration', 'as C02 for the expression encoder'),
'C04': ('transport monitor comparing decoded expression trees with the tree the generator built; each expression value re-encoded in several places', 'exploration', 'every constructor with every operand kind, random trees, size sweeps around every length boundary; trusts the name table transcribed from the X Protocol'),
'C05': ('transport monitor comparing decoded CRUD messages and id captures with the calls made', 'exploration', 'every builder form with random tables, columns, rows, assignments and criteria; trusts the reference encoder'),
'C06': ('transport monitor comparing statement texts, ids and argument ownership', 'exploration', 'every id boundary and every text length around the length-prefix boundaries, all byte values'),
'C07': ('differential monitor: the same program on pipes of different capacity and history, snapshots after each call, caller data hashed and then overwritten', 'exploration', 'observes every prefix of every generated program; aliasing is observed by mutating inputs after the call'),
'C08': ('fault injection: one or more failing calls at every position of generated programs; a recording transport decides', 'exploration', 'failing values of every kind at every position and nesting explored, then the pipe is Reset and compared with a new one'),
'C09': ('online checker of the bracket grammar over the decoded message stream', 'exploration', 'random scope trees with all levels and contexts; the grammar is written from the statement'),
'C10': ('misuse injection: every builder entry point called on enclosing and stale builders and handles; panic and byte monitors', 'exploration', 'every method x every kind of misuse inside generated programs; the unit of work is compared with the same program without misuse'),
'C11': ('scripted server on a recording connection: generated reply streams with arbitrary chunking; responses compared with the script', 'exploration', 'random streams of notices, metadata, rows, results and errors, every split of small streams; trusts the reply generator'),
'C12': ('fault injection into reply streams: every cut position, broken frames, write failures, mid-stream errors; verdict by an independent stream model', 'fault_enumeration', 'every byte position of generated streams; streams the statement does not classify are not judged'),
'C13': ('trace monitor over Write/Read/SetDeadline events of a recording connection', 'exploration', 'sequences of sends with varying deadlines on one connection, real sockets for expiry'),
'C14': ('server-side verification of proofs (independent SHA-1/SHA-256 scrambles) over generated credentials and challenges', 'exploration', 'lengths swept around every buffer and length-prefix boundary; rejects checked with wrong passwords'),
'C15': ('scripted loopback server recording every byte sent in clear, with hostile behaviours at each stage', 'exploration', 'refusal, plain-text continuation, bad certificates, injected clear-text frames, truncation; trusts crypto/tls'),
'C16': ('scripted loopback server with fault at every stage of connecting; socket closure observed from the server side', 'fault_enumeration', 'every outcome at every stage x transport x mechanism'),
'C17': ('gated scheduler driving the real pool through chosen interleavings, judged step by step by a reference model, plus free-running histories', 'exploration', 'tens of thousands of distinct histories; the order of steps inside one pool call is left to the Go scheduler'),
'C18': ('gated scheduler plus connection life-cycle monitor (opened/used/spoiled/closed) with injected failures', 'exploration', 'as C17, judged: leaks, bounds, reuse after error'),
'C19': ('gated scheduler with Close at any step, repeated and concurrent, plus free-running histories; panic monitor', 'exploration', 'as C17, judged: effects of Close'),
'C20': ('simulated MySQL sessions behind the real pool and connector; faults at every message position; offline check of the committed store', 'fault_enumeration', 'trusts the simulator\'s session rules (autocommit, implicit commit, rollback on disconnect, expectation blocks)'),
'C21': ('Go race detector over concurrent workloads plus comparison of each unit of work with its solo run', 'exploration', 'happens-before race detection on the executions seen; connections without own locking make unordered hand-over visible'),
'C22': ('monitor comparing decoded decimals with arbitrary-precision arithmetic; enumeration of digit counts, scales and signs', 'exploration', 'all digit counts x scales x sign nibbles with boundary and random digits'),
'C23': ('monitor comparing every constant and id with an independent table; delivery decoded at the transport', 'exploration', 'complete for the constants and ids up to 70000; table from Boost.MySQL'),
'C24': ('monitor comparing every constant with an independent code table and every received error with what a scripted server sent over a recording net.Conn', 'exploration', 'complete for the constants (59 of 1114 have no entry in the Boost.MySQL headers; those are held at the codes of MySQL\'s own sources); received errors sampled'),
'C25': ('monitor decoding what each constructor appended behind dirty buffers with an independent protocol decoder', 'exploration', 'all lengths to 300 and around the length-prefix boundaries, all field numbers; rest sampled'),
'C26': ('monitor recording hand-overs at netx.Sender and transmissions at net.Conn across repeated sends with injected failures', 'exploration', 'sampled units, outcomes and failure sequences'),
'C27': ('scripted loopback servers that stop cooperating at every stage, watched calls under context deadlines', 'exploration', 'every stage x transport x behaviour; \'soon\' is judged with 60 s of grace, so only calls that outlive their deadline by that much are reported'),
'C28': ('monitor of returned slices and of neighbouring bytes over enumerated lengths, capacities, positions and counts', 'exploration', 'complete for lengths to 16, spare capacity and counts to 20; larger ones sampled'),
}
m = {'version': 1, 'setup_cmd': './setup.sh',
     'checks': [{'property': k, 'quick_cmd': './check.sh ' + k, 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + k,
                 'evidence_file': 'evidence/%s.json' % k, 'technique': t, 'level': l, 'level_note': n} for k, (t, l, n) in sorted(T.items())],
     'not_applicable': [],
     'notes': 'No hooks in /repo: every monitor observes through public interfaces (netx.Sender, net.Conn, netx.Connector, sockets). known_findings.txt lists the repaired defects.'}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
