#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json.  A property is claimed when bin/specs.py has jobs for it."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import specs
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = 'src/reactor/'
P = []
def p(pid, title, statement, over, text, why, files, mech, observe=()):
    P.append({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': list(observe), 'hook_needed': None}})

p('C01', 'No event is delivered to a removed source',
  'Once a source has been removed from the reactor or a descriptor has been closed, its callback is never called again for it, even when its event was already collected in the same batch and even when its memory has been released or reused. The other events of the batch are delivered.',
  ['schedules', 'histories'], 'every batch of ready descriptors, every order, and every choice of which callback removes, closes or frees which other source',
  'the tests never remove one ready source from the callback of another within one batch', [R + 'core.c', R + 'descriptor.c'],
  [('pending batch scrubbed on removal', R + 'core.c reactor_delete/reactor_loop'), ('close', R + 'descriptor.c descriptor_close')])
p('C02', 'The loop runs while sources are registered and serves every ready one',
  'The event loop runs exactly while at least one source is registered and not stopped, survives interrupted waits, and in each iteration delivers every ready source its events exactly once, in the order the kernel reported them.',
  ['schedules', 'fault_sequences', 'histories'], 'every sequence of add, modify, delete, abort and of wait results including interruptions', 'tests use one or two sources and no interrupted wait',
  [R + 'core.c'], [('registration count and loop', R + 'core.c')])
p('C03', 'Time is constant within an iteration and fresh in the next',
  'The reactor clock returns one value throughout a loop iteration and a fresh reading in each later iteration, equal to the system clock in nanoseconds.',
  ['histories', 'inputs'], 'every clock value and every pattern of reads across iterations', 'tests compare only two readings', [R + 'core.c'], [('cached time', R + 'core.c reactor_now')])
p('C04', 'Descriptor events match readiness, interest and lifecycle',
  'A descriptor reports exactly the read, write and close conditions the kernel signals, is registered with exactly the requested interest, and is closed and unregistered exactly once however often it is closed or destroyed.',
  ['inputs', 'histories', 'schedules'], 'every event mask, every open/mask/close sequence, including closing from a callback', 'tests exercise few masks and no close from within a callback',
  [R + 'descriptor.c'], [('event dispatch', R + 'descriptor.c descriptor_callback'), ('lifecycle', R + 'descriptor.c descriptor_open/mask/close')])
p('C05', 'A timer alerts once per expiration and never after clear',
  'A timer is programmed with exactly the requested first expiry and interval, reports an expiration only when the kernel reports one, and never alerts after it was cleared or set to a new time from its own callback without a new expiration.',
  ['inputs', 'histories', 'schedules'], 'every expiry and interval, every set/clear/expire history', 'tests use two fixed timers', [R + 'timer.c'], [('timerfd handling', R + 'timer.c')])
p('C06', 'Every event signal reaches its receiver exactly once',
  'Each signal sent on an event object, from any thread and any number of times, causes exactly one delivery per signal, none lost and none invented, until it is closed.',
  ['histories', 'schedules'], 'every count of signals outstanding and every close point', 'tests send one signal at a time', [R + 'event.c'], [('eventfd semaphore', R + 'event.c')])
p('C07', 'File notifications go to the watch they belong to, with the right name',
  'Each kernel notification is delivered once to the owner of its watch with its mask and name, in order, across arbitrarily packed and truncated batches; removed watches and removed names are silent and are released.',
  ['inputs', 'histories'], 'every batch of kernel records and every add/remove history, including removal from a callback', 'tests see only batches of one or two real events',
  [R + 'notify.c'], [('record parsing and tables', R + 'notify.c')])
p('C08', 'Asynchronous work completes exactly once, or not at all after cancel',
  'Work handed to a thread runs exactly once, its completion is reported exactly once on the loop after the work finished, and after cancel no completion is reported and all resources are released.',
  ['schedules', 'fault_sequences'], 'every interleaving point of completion against cancel within the bound', 'tests run one schedule', [R + 'async.c'], [('worker and completion', R + 'async.c')])
p('C09', 'A resolver answers exactly once and owns its request',
  'Every resolver request ends in exactly one of answer, failure or silent cancel; the answer holds the resolved addresses, and nothing leaks whichever way it ends.',
  ['schedules', 'fault_sequences', 'inputs'], 'every outcome of the lookup and every cancel point', 'tests resolve two fixed names', [R + 'resolver.c', R + 'net.c'], [('request and completion', R + 'resolver.c')])
p('C10', 'Sockets are created completely or not at all',
  'Creating a socket returns a descriptor with the requested role and options or -1, and in every failure path no descriptor or address list is leaked; TLS contexts likewise.',
  ['fault_sequences', 'inputs'], 'every pattern of system call failures', 'tests do not inject failures', [R + 'net.c'], [('socket setup', R + 'net.c net_socket'), ('contexts', R + 'net.c net_ssl_*')])
p('C11', 'Stream output arrives exactly once, in order',
  'The bytes the kernel accepts from a stream are exactly the bytes written to it, in order, without loss, duplication or insertion, however the kernel splits or refuses writes.',
  ['inputs', 'fault_sequences', 'histories'], 'every sequence of writes, flushes, partial writes, refusals and later readiness', 'tests write to sockets that accept everything', [R + 'stream.c'], [('flush', R + 'stream.c')])
p('C12', 'Stream input is exactly what the peer sent',
  'The bytes a reader sees are exactly the bytes received, in order, consumption removes exactly the consumed prefix, and end of stream is reported after all data.',
  ['inputs', 'fault_sequences', 'histories'], 'every segmentation, refusal and consume pattern', 'tests receive whole messages', [R + 'stream.c'], [('fill and consume', R + 'stream.c')])
p('C13', 'A stream never stalls with work to do',
  'Whenever output is pending the stream will be woken when the peer can take it; whenever input is readable the reader is woken; a writer that asked for it is told when its output has drained.',
  ['schedules', 'fault_sequences', 'histories'], 'every interleaving of partial writes and edge-triggered readiness', 'tests never fill a socket buffer at the decisive moment', [R + 'stream.c', R + 'descriptor.c'], [('interest mask', R + 'stream.c')])
p('C14', 'TLS streams carry the same bytes and release their session',
  'Over TLS the application bytes given to and taken from the TLS layer are exactly those written and read, in order, under every want-read, want-write and error outcome, and the session is released exactly once.',
  ['inputs', 'fault_sequences', 'histories'], 'every outcome sequence of the TLS library', 'tests use one happy-path handshake', [R + 'stream.c'], [('TLS fill, flush, open, close', R + 'stream.c')])
p('C15', 'A stream may be closed or destroyed at any time, also from its callback',
  'Closing or destroying a stream at any point, including from its own callback, never touches released memory, reports nothing afterwards, closes the descriptor exactly once, and the stream can be opened again.',
  ['schedules', 'histories'], 'every callback point and action', 'tests close at one or two points', [R + 'stream.c', R + 'descriptor.c'], [('abort and lifecycle', R + 'stream.c')])
p('C16', 'HTTP parsing is memory safe and depends only on the given bytes',
  'Parsing reads only the bytes it was given, returned slices lie inside them, and the result is a function of those bytes alone, not of memory before or after them.',
  ['inputs'], 'every byte sequence up to the bound', 'tests parse a few well-formed messages', ['src/picohttpparser/picohttpparser.c', R + 'http.c'], [('parser', 'src/picohttpparser/picohttpparser.c')])
p('C17', 'Requests are accepted exactly by the grammar, with the right fields',
  'A complete request head is accepted exactly when it matches the request grammar, and then method, target and header fields are the ones in the text, in order; otherwise it is reported malformed or incomplete.',
  ['inputs'], 'every byte sequence up to the bound, decided against an independent reference', 'tests parse a few messages', ['src/picohttpparser/picohttpparser.c', R + 'http.c'], [('http_read_request', R + 'http.c')])
p('C18', 'How a message is split into segments does not change its meaning',
  'A prefix of a message is reported incomplete or malformed but never accepted differently; resuming after more bytes arrive yields the same result as parsing the whole message, and trailing bytes are left unconsumed.',
  ['inputs', 'schedules'], 'every byte sequence and every cut within the bound', 'tests use one or two cuts', [R + 'http.c', 'src/picohttpparser/picohttpparser.c'], [('incomplete detection', R + 'http.c')])
p('C19', 'Responses are parsed exactly',
  'A complete response head yields its status code and header fields exactly as in the text, and malformed or incomplete heads are reported as such.',
  ['inputs'], 'every byte sequence up to the bound', 'tests parse a few messages', [R + 'http.c', 'src/picohttpparser/picohttpparser.c'], [('http_read_response', R + 'http.c')])
p('C20', 'Accelerated parsing equals portable parsing',
  'The vectorised parser build gives the same result as the portable one on every input, and reads nothing outside the input.',
  ['inputs', 'configurations'], 'every byte sequence up to the bound, both builds', 'the tests run only the portable build', ['src/picohttpparser/picohttpparser.c'], [('SSE4.2 range scan', 'src/picohttpparser/picohttpparser.c findchar_fast')])
p('C21', 'Serialised messages are exact',
  'Writing a request or response appends exactly its specified bytes (start line, fields, a content length equal to the size of the body, the body) for every method, target, status, type and body, and touches nothing beyond them.',
  ['inputs'], 'every field content and length up to the bound', 'tests write a few fixed messages', [R + 'http.c'], [('http_write_*', R + 'http.c')])
p('C22', 'Header lookup finds the right field regardless of case',
  'Looking a name up in a header list returns the value of the first field whose name equals it ignoring ASCII case, or nothing.',
  ['inputs'], 'every list and name up to the bound', 'tests look up a few fixed names', [R + 'http.c'], [('http_field_lookup', R + 'http.c')])
p('C23', 'Chunked decoding is exact and independent of segmentation',
  'Decoding a chunked body yields exactly its payload and the end position for every segmentation, and malformed chunk sizes are rejected without overflow.',
  ['inputs', 'schedules'], 'every byte sequence and segmentation up to the bound', 'the tests barely use chunked bodies', ['src/picohttpparser/picohttpparser.c'], [('phr_decode_chunked', 'src/picohttpparser/picohttpparser.c')])
p('C24', 'Each request gets its own response, in order',
  'Pipelined requests on a connection are each handed to the handler once, in order, and responses leave in request order, exactly one each.',
  ['inputs', 'schedules', 'histories'], 'every segmentation and every point at which handlers answer', 'tests send one request at a time or a fixed pair', [R + 'server.c'], [('session read loop', R + 'server.c')])
p('C25', 'Requests and connections are released exactly once and never used after',
  'A request held by a handler stays valid until released, whatever happens to its connection; answering a dead connection is harmless; and everything is freed exactly once.',
  ['schedules', 'histories'], 'every order of hold, answer, disconnect, release and drop', 'tests follow one order', [R + 'server.c'], [('reference count', R + 'server.c')])
p('C26', 'A malformed request is answered 400 and the connection ends',
  'A malformed request is never handed to the application: the connection gets an error response and is closed, and earlier valid requests are unaffected.',
  ['inputs', 'histories'], 'every malformed head within the bound', 'tests send one malformed request', [R + 'server.c'], [('error path', R + 'server.c')])
p('C27', 'The Date field is always a valid current date',
  'Every date emitted is the RFC 7231 form of the current second, never empty or stale across updates.',
  ['inputs', 'histories'], 'every clock value in range', 'tests read one date', [R + 'server.c', R + 'http.c'], [('date formatting', R + 'http.c http_date')])
p('C28', 'Accepting never loses or leaks a connection',
  'Every connection the kernel hands out is served or closed, transient accept errors do not stop the server, and shutdown closes everything exactly once.',
  ['fault_sequences', 'histories'], 'every sequence of accept results', 'tests accept one connection without errors', [R + 'server.c'], [('accept loop', R + 'server.c')])
p('C29', 'A byte buffer behaves as a byte sequence',
  'After any sequence of insert, fill, erase, resize, reserve, compact and clear a buffer holds exactly the bytes the operations imply, with capacity at least its size, and never touches memory outside its block.',
  ['inputs', 'histories'], 'every operation from every valid state within the bound', 'tests follow a few fixed sequences', [R + 'buffer.c'], [('buffer', R + 'buffer.c')])
p('C30', 'A vector behaves as a sequence and releases each element once',
  'After any operation a vector holds exactly the implied elements in order, and the release function is called exactly once for each element erased, cleared or destroyed and for no other.',
  ['inputs', 'histories'], 'every operation from every valid state within the bound', 'tests follow a few fixed sequences', [R + 'vector.c'], [('vector', R + 'vector.c')])
p('C31', 'A list keeps its order in both directions and releases each element once',
  'After any insertion, erasure, splice or clear, walking a list forwards and backwards visits exactly the implied objects in order, and each is released exactly once.',
  ['inputs', 'histories'], 'every history within the bound', 'tests follow a few fixed sequences', [R + 'list.c'], [('list', R + 'list.c')])
p('C32', 'A map finds exactly what was stored, whatever the hashes',
  'After any sequence of inserts, erases, growth and clears, each key is found exactly when it is present, with its own value, whatever the hash function returns; entries are released exactly once.',
  ['inputs', 'histories'], 'every hash function, collision and wrap-around pattern within the table bound', 'tests use a few well-distributed hashes', [R + 'map.c'], [('open addressing', R + 'map.c')])
p('C33', 'Integer and string maps behave as maps',
  'Integer- and string-keyed maps return the value last inserted for a key and nothing for absent keys, under any collisions, and release erased entries once.',
  ['inputs', 'histories'], 'every key pair and every hash function', 'tests use few keys', [R + 'mapi.c', R + 'maps.c'], [('typed maps', R + 'mapi.c, ' + R + 'maps.c')])
p('C34', 'A hash depends only on the bytes hashed and is the published one',
  'Hashing reads exactly the given bytes, gives the same value wherever they lie in memory, and equals the published algorithm for every length class.',
  ['inputs'], 'every content of every length up to the bound', 'tests hash a few constants', [R + 'hash.c'], [('FarmHash and finalizer', R + 'hash.c')])
p('C35', 'String editing equals editing a byte sequence',
  'Insertion, erasure, search, replacement and resizing leave exactly the implied bytes, correctly sized and terminated.',
  ['inputs', 'histories'], 'every operation from every string within the bound', 'tests edit a few constants', [R + 'string.c'], [('string', R + 'string.c')])
p('C36', 'String input and output carry every byte once',
  'Reading a descriptor or file yields exactly its bytes, and writing or saving emits exactly the bytes of the string once, whatever sizes the kernel transfers, with every descriptor closed.',
  ['inputs', 'fault_sequences'], 'every pattern of short transfers within the bound', 'tests use regular files transferred in one call', [R + 'string.c'], [('string_read, string_write, string_load, string_save', R + 'string.c')])
p('C37', 'Strings are independent values and nothing leaks',
  'A copy is equal and independent, the shared empty string is never altered, freeing any string releases exactly its own memory, emptied strings included, and contents survive growth.',
  ['inputs', 'histories'], 'every string within the bound', 'tests do not check emptied strings', [R + 'string.c'], [('allocation', R + 'string.c')])
p('C38', 'Slices of data stay inside their data',
  'Selecting, consuming, comparing, prefix tests and offsets of slices return exactly the bytes and results their definitions give.',
  ['inputs'], 'every block content and slice within the bound', 'tests use a few constants', [R + 'data.c'], [('data', R + 'data.c')])
p('C40', 'Decimal numbers are printed exactly',
  'Decimal formatting emits exactly the digits of the value, without leading zeros, and the length function returns their number.',
  ['inputs'], 'every 32-bit value', 'tests print a few constants', [R + 'utility.c'], [('utility', R + 'utility.c')])

TECH = 'bounded symbolic execution of the real C (CBMC, SAT/SMT), counterexamples replayed natively'
NA = {}
def main():
    P.sort(key=lambda x: x['id'])
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
    checks, na = [], []
    for x in P:
        i = x['id']
        if specs.JOBS.get(i):
            s = specs.SPECS[i]
            checks.append({'property': i, 'quick_cmd': 'bin/check %s' % i, 'thorough_cmd': 'bin/check %s --thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                           'technique': s.get('technique', TECH), 'level': 'other',
                           'level_note': ('Every value within the bounds is decided by the solver, with unwinding assertions. %s Bounds: %s. Outside: %s. Assumes: %s. '
                                          'Trusts CBMC and the environment models in /verif/env and the harness.') % (
                                          s.get('explain', ''), s.get('bounds', ''), s.get('outside', ''), '; '.join(s.get('assume', [])) or 'nothing')})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
    json.dump({'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
               'notes': 'No hooks: the checks compile /repo\'s unmodified sources. bin/check ID [job...] runs one property.'},
              open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
main()
