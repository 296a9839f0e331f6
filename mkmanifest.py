#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = 'contract-based deductive verification of the Go SSA of the current source: modular symbolic execution with contracts and loop invariants, obligations discharged by z3'
BASE = ' Trusted: go/types and go/ssa, the verification-condition generator in /verif/vc, z3, and the assumed contracts of library functions listed in the evidence.'
NOTES = {
    'C01': 'Proof for all values and both encoders: encode against an inductive PackStream specification. One recorded finding (uint above MaxInt64).',
    'C02': 'Proof for all payload and chunk sizes and any failing write: Encode/flush against a ghost model of the writer.',
    'C03': 'Proof for all chunkings, fragmentations, cuts and read errors: Decode/read/readData against a ghost stream position.',
    'C04': 'Proof for all valid encodings and both decoders: decode against an inductive reading of the format.',
    'C05': 'Proof for all byte strings: no panic, error exactly where the bytes denote nothing (or nest deeper than 1000 levels), sizes bounded by the bytes left, recursion depth bounded.',
    'C06': 'Proof by induction over the value: lemma that what the encoder contract writes the decoder contract reads back, on top of the proofs of both contracts.',
    'C07': 'Proof for all temporal and spatial values, with package time abstracted to instants, offsets and an uninterpreted calendar.',
    'C08': 'Proof for all servers: CreateBoltConn from the dial to the acknowledged initialisation (every version answered, every fragmentation, failure and alien answer), plain and TLS, for every connection string denoting such a connection.',
    'C09': 'Proof for all arguments: every request constructor of the four protocols against its signature byte and exact fields.',
    'C10': 'Proof for all servers, responses and results of any length, per protocol version: queries on a connection and in a transaction against a ghost conversation (requests sent, responses received, rows).',
    'C11': 'Proof for all servers: every path after a FAILURE consumes exactly the outstanding responses and the one of the RESET, or leaves the connection closed.',
    'C12': 'Proof for all servers and histories (as an inductive invariant of connection and transaction objects over all exported methods).',
    'C13': 'Proof for all servers: Close and ValidateOpen from every state allowed by the invariant, including failing rollback, goodbye and socket.',
    'C14': 'Proof for all database names, queries and transactions, per protocol version.',
    'C15': 'Proof for all option lists and connection strings (with URL parsing and printing as assumed inverses): options, NewClient, the drivers, the strings cluster members are opened with (this part bounded: a table with one server of each role), and CreateBoltConn.',
    'C16': 'Proof for all overviews (any number of rows with any contents, both layouts): inductive invariants over the row, address and list loops, found among candidates and proved; the strings for reads and writes are exactly the bolt addresses of the rows of those roles in row order.',
    'C17': 'Inductive: every operation of the pool from every state its invariant allows, in bounded shapes (at most three idle connections of each mode and three lent, in any combination of open, closed, dead and retired; up to twelve of each in given states), labelled bounded and not counted as proved; the locking discipline is checked at every access; the routing driver is proved without bound.',
    'C18': 'Inductive: every operation of the pool, and a round of the refresh, from every state its invariant allows, in bounded shapes (at most three idle connections of each mode and three lent in any combination of states, up to twelve in given ones, five routing tables), labelled bounded and not counted as proved; the routing driver and Close of the four connection types are proved without bound.',
    'C19': 'Proof over the pool facade and the factory callbacks against a model of go-commons-pool read from its source, with connections dying at any point between calls.',
    'C20': 'Proof for all summary metadata.',
    'C21': 'Proof for error chains of any length (induction over the chain where the text is built by recursion; code that walks the chain with a loop is only checked for chains of up to five) and all failure metadata.',
    'C22': 'Proof by ownership: every access to the conversation happens with the lock of the connection held, requests of a call are sent and answered in one critical section, the lock is free at every return and never taken twice.',
    'C23': 'Proof for all reads, writes, transport results and timeouts: Read and Write of the stream the codec uses, the dial, and every call of a connection only using that stream.',
    'C24': 'Proof for all connection strings: the TLS configuration handed to the dial is the one asked for; unreadable files and certificates without key fail.',
}
LEVEL = {'C17': 'other', 'C18': 'other'}
NA = {'C25': 'liveness over unbounded time and a fair environment; not expressible as a contract over one call or data structure'}


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks = [{'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
               'technique': TECH, 'level': LEVEL.get(i, 'proof'), 'level_note': NOTES[i] + BASE} for i in ids if i in NOTES]
    na = [{'property': i, 'reason': NA.get(i, 'not claimed yet: its contracts are still being written')} for i in ids if i not in NOTES]
    json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
