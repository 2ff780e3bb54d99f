#!/usr/bin/env python3
"""Single source for properties.jsonl (run: python3 tools/props.py). Statements live here, machinery in harness/."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None)))

HC='pillowcore/HttpConnection.cpp'; HL='pillowcore/HttpClient.cpp'; HH='pillowcore/HttpHandler.cpp'; PR='pillowcore/HttpHandlerProxy.cpp'
RT='pillowcore/HttpHandlerSimpleRouter.cpp'; HS='pillowcore/HttpServer.cpp'; SS='pillowcore/HttpsServer.cpp'; QS='pillowcore/HttpHandlerQtScript.cpp'
HD='pillowcore/HttpHeader.cpp'; HE='pillowcore/HttpHelpers.cpp'; BA='pillowcore/ByteArrayHelpers.h'; P1='pillowcore/parser/parser.c'; P2='pillowcore/parser/http_parser.c'

prop('C01', 'Requests are delivered exactly as sent, however the bytes are split',
 'For every well-formed HTTP/1.x request, however its bytes are split into reads, the connection announces exactly one ready request, whose method, URI, path, query string, fragment, version, headers (names, values, order, duplicates) and content are byte for byte those that were sent. Content may hold any byte values and sizes from 0 up, and headers may be up to the 32 KiB section limit.',
 ['inputs','schedules'], 'every well-formed request (method, URI shape, headers, body of any bytes) times every segmentation of its bytes into device reads',
 'Tests send a dozen fixed requests, mostly in one piece; request text x segmentation x body size is unbounded, and buffer growth, in-place NUL termination and raw-data views make the result depend on it.',
 [HC,P1,BA], [('incremental parse + raw data views over one buffer', HC+':processInput/setupRequestHeaders/transitionToSendingHeaders'), ('generated request parser', P1)], ['requestReady signal and the request accessors'])

prop('C02', 'Invalid or oversized requests are refused with an error and closed',
 'A request whose head is malformed, whose head exceeds the 32 KiB limit, or whose Content-Length is not a number, negative or above 128 MiB is never delivered to the application; the client gets one complete error response (400 for malformed, oversized or negative, 413 for unparsable or too large lengths) after the complete responses of earlier requests, and the connection is then closed and ignores whatever follows. This holds for every position of the invalid request in a keep-alive or pipelined sequence and for every segmentation.',
 ['inputs','schedules','histories'], 'every kind of invalid request at every position of a request sequence, under every segmentation',
 'Tests try a few invalid requests as the first and only request in one write.',
 [HC,P1], [('request error response then flush and close', HC+':writeRequestErrorResponse'), ('limits', HC+':processInput/transitionToReceivingContent')], ['client byte stream', 'requestReady/closed signals'])

prop('C03', 'Pipelined requests: one response each, in order, with well-ordered signals',
 'For any sequence of requests sent over one connection, pipelined or not and however split, each request is announced ready exactly once, in order and never before the previous response was completed, and the client receives exactly one complete response per request in request order, without interleaving. For each request completion is announced exactly once, after its ready announcement and after its last response byte was handed to the device; closed is announced exactly once, last.',
 ['histories','schedules'], 'every request sequence, segmentation, and synchronous or delayed response pattern',
 'Tests pipeline two or three GETs with immediate responses; the state machine re-enters itself from inside writeResponse, so the order depends on where the application answers from.',
 [HC], [('connection state machine', HC+':transitionTo*'), ('leftover bytes kept for the next request', HC+':transitionToCompleted')], ['requestReady, requestCompleted, closed signals', 'output device writes'])

prop('C04', 'Responses on the wire are exactly what the application gave',
 'For every status code, header collection and content given to writeResponse, writeResponseString, or writeHeaders+writeContent, the bytes sent parse as one HTTP response carrying that status (or 500 Internal Server Error for an unknown code), every application header unchanged and in order (except the framing headers the connection manages itself), a correct Content-Length when the length is known, and exactly that content. A HEAD request gets the same head as a GET would and never a single content byte.',
 ['inputs'], 'every status code, header set, content (any bytes, empty to megabytes), write API and chunking of the content',
 'Tests check a few literal responses; sizes, unusual status codes, header combinations and HEAD combinations are unbounded.',
 [HC,HE,BA], [('response head builder', HC+':writeHeaders'), ('number formatting', BA+':appendNumber')], ['bytes written to the output device', 'responseStatusCode/responseContentLength'])

prop('C05', 'Response framing survives API misuse: never more than declared, never mixed',
 'Whatever sequence of response calls the application makes (writes beyond the declared length, writes before headers or after completion, repeated heads, misplaced endContent), the bytes on the wire stay a valid sequence of responses: no more content than the declared Content-Length, chunked content decoding to exactly the accepted writes and ended by exactly one terminating chunk, and nothing after a completed response until the next request. Calls that do not apply in the current state are ignored without any effect on the wire, the signals or later responses.',
 ['programs','histories'], 'every sequence of response API calls over every request of a connection',
 'Tests try one misuse at a time; call sequences are unbounded.',
 [HC], [('state guards and byte accounting', HC+':writeResponse/writeHeaders/writeContent/endContent')], ['bytes written to the output device', 'signals'])

prop('C06', 'Keep-alive and close are negotiated correctly and then honoured',
 'After each response the connection stays open for another request if and only if the client allows it (HTTP/1.1 without "Connection: close", or an older version with "Connection: keep-alive", compared case-insensitively), the application did not ask for "Connection: close", and the response length is delimited by a known length or chunked encoding; otherwise it closes once the response is fully sent. The Connection header sent always agrees with what happens, chunked encoding is only used towards HTTP/1.1 clients that were not given a length, and a kept-alive connection serves the next request normally.',
 ['inputs','configurations','histories'], 'HTTP version x request Connection header x response Connection header x length kind x transfer encoding x API, at every position of a connection history',
 'Tests cover a handful of cells of the decision table on fresh connections only.',
 [HC], [('keep-alive negotiation', HC+':writeHeaders/transitionToSendingContent/endContent')], ['wire bytes', 'connection closed or not'])

prop('C07', 'No response byte is lost: everything is flushed before the connection closes',
 'Every byte of a completed response reaches a client that keeps reading, however slowly and however large the response, on TCP, local-socket and TLS connections, whether the connection is then kept alive or closed by the server. A connection that closes after a response does so only after the last byte was flushed and then announces closed.',
 ['schedules','inputs'], 'response sizes beyond socket buffers x reader speed x transport x keep-alive/close',
 'Tests read small responses from prompt clients.',
 [HC,HS,SS], [('flushing state drains before closing', HC+':transitionToFlushing/drain/flush')], ['client side byte stream until EOF', 'closed signal'])

prop('C08', 'Disconnects and closes at any point are handled cleanly',
 'If the client disconnects or resets, or the application calls close(), at any point of a request/response exchange, including from inside any connection signal handler, the connection announces closed exactly once, announces nothing afterwards, touches no freed memory, and accepts later response calls as harmless no-ops. The server object keeps serving other and new clients.',
 ['crash_points','fault_sequences'], 'every byte offset of the exchange x kind of disconnect x every callback in which close() can be called',
 'Tests disconnect at two or three fixed points.',
 [HC,HS], [('close transition', HC+':transitionToClosed'), ('connection recycling', HS+':connection_closed')], ['signals', 'sanitizer reports', 'later service'])

prop('C09', 'Nothing leaks from one request or client to the next',
 'Every value an application can read from or through a connection for a request (request fields, decoded fields, headers, params including ones the application set, content) and every automatic decision about its response depends only on that request and its response calls, never on earlier requests on the same connection or on earlier clients served by the same recycled connection object. This includes earlier exchanges that failed or were cut off at any point.',
 ['histories'], 'every history of earlier requests and sessions (complete, erroneous, aborted) before the observed request',
 'Tests look at fresh connections or a repetition of the same request; state left by a different earlier exchange is a property of histories.',
 [HC,HS], [('per-request reset', HC+':initialize/transitionToReceivingHeaders/transitionToSendingHeaders/transitionToCompleted'), ('pool', HS+':takeConnection/putConnection')], ['request accessors', 'wire bytes'])

prop('C10', '100 Continue is sent exactly when due, and before the final response',
 'A request with a non-empty body and "Expect: 100-continue" (any case) is answered by exactly one complete 100 Continue interim response, sent once its head was received and before any byte of the final response of that request and after the whole previous response; the request is then delivered with its full content. No other request ever triggers an interim response.',
 ['inputs','schedules','histories'], 'Expect header variants x body sizes x segmentation x position in a pipelined sequence',
 'Tests try one 100-continue exchange on a fresh connection.',
 [HC], [('interim response', HC+':transitionToReceivingContent')], ['wire bytes relative to fed bytes'])

prop('C11', 'Decoded request values and query parameters follow the encoding rules',
 'The decoded URI, path, query string and fragment are the UTF-8 decoding of the raw value with every complete %XX sequence replaced by its byte, and requestParams is the list of "&"-separated name[=value] pairs of the query string, in order with duplicates, each side decoded the same way. requestParamValue returns the first parameter whose name matches case-insensitively, and setRequestParam replaces that one or appends, leaving the others alone.',
 ['inputs','programs'], 'every raw URI (lengths across internal buffer sizes, any escapes incl. invalid UTF-8) and every sequence of parameter reads and writes',
 'Tests decode a few short strings; long values take a different code path and positions of escapes at the end matter.',
 [BA,HC], [('percent decoding', BA+':percentDecode/percentDecodeInPlace'), ('query parsing', HC+':requestParams/requestParamValue/setRequestParam')], ['request accessors'])

prop('C12', 'No byte stream from a client can corrupt memory or wedge the server',
 'Whatever bytes clients send, in whatever pieces, the server code performs no invalid memory access or other undefined behaviour, does not abort or spin, delivers to the application only requests whose bytes were actually received, and remains able to serve the next client.',
 ['inputs','schedules'], 'every byte stream and segmentation (structured mutations and random bytes)',
 'Tests send a few valid and invalid requests without sanitizers.',
 [P1,HC,BA], [('generated parser', P1), ('buffer management', HC+':processInput')], ['sanitizer reports', 'signals', 'follow-up request'])

prop('C13', 'Concurrent clients each get their own responses and connections are recycled',
 'With any number of concurrent clients opening, using, aborting and closing connections in any order, every response received belongs to the request that client sent, every accepted client is served, and the servers announce each received request exactly once. Connection objects are recycled rather than accumulated (at most 25 idle ones are kept), and no sockets or file descriptors remain after the clients are gone. This also holds when handlers run event loops of their own.',
 ['schedules','histories'], 'every interleaving of connects, requests, aborts and closes by many clients, over TCP and local sockets',
 'Tests open up to a few tens of identical clients in lock step.',
 [HS,HC], [('connection pool', HS+':HttpServerPrivate'), ('device disposal', HS+':connection_closed')], ['client byte streams', 'object tree', '/proc/self/fd'])

prop('C14', 'TCP, TLS and local-socket servers behave the same',
 'The same client byte sequence and application behaviour produce the same requests and the same response bytes over plain TCP, TLS and local sockets, including pipelining, keep-alive, close and error responses, however the server object was set up, and the remote address reported is that of the peer for network sockets. A TLS server identifies itself with the certificate and key that were set last, serves nothing unencrypted, and goes on serving the connections made before they were set.',
 ['configurations','inputs'], 'every exchange x the three transports',
 'Tests repeat a few simple requests per transport and never compare transports.',
 [HS,SS,HC], [('transport setup', SS+':incomingConnection'), ('per-transport signal wiring', HC+':initialize')], ['client byte streams', 'request accessors'])

prop('C15', 'The file handler never serves anything outside its public directory',
 'For every request path, encoded or not, the file handler only ever serves regular files that really live below its public directory: no sequence of "..", encoded separators, symbolic links, sibling directories with a common name prefix, or odd prefixes yields any byte of a file outside it. When it does not serve a request it returns false and writes nothing, so that other handlers can answer, and with no public directory configured it serves nothing.',
 ['inputs','configurations'], 'every request path x directory layout (symlinks, siblings, nested, trailing slashes)',
 'Tests try two ".." paths.',
 [HH], [('canonical path check', HH+':HttpHandlerFile::handleRequest/setPublicPath')], ['bytes served', 'handleRequest result'])

prop('C16', 'Served files arrive byte-exact, with working validators, at any size',
 'A file below the public directory is served with its exact bytes, its exact length and the media type of its name, for every size relative to the buffer size, for slow readers, and on kept-alive or pipelined connections; HEAD gets the same head without content. Files sent from memory carry an ETag that depends only on the content: repeating it in If-None-Match yields 304 without content, any other value yields the file; an unreadable file yields 403. No file stays open once its transfer ended, however it ended.',
 ['inputs','schedules','histories'], 'file sizes x buffer sizes x methods x validators x reader speed x request sequences on one connection',
 'Tests serve three small fixed files and one bigger file once each.',
 [HH,HC], [('in-memory vs incremental transfer', HH+':HttpHandlerFile::handleRequest/HttpHandlerFileTransfer')], ['client byte stream', 'open file descriptors after transfer'])

prop('C17', 'The router dispatches each request to the right route with the right params',
 'For any set of routes, a request goes to the first added route whose pattern matches the whole percent-decoded path (":name" matching one segment of word characters or dashes, "*name" anything) and whose method matches case-insensitively or is empty, and exactly that one target runs, once, seeing each pattern parameter under its own name with the text it matched. When no pattern matches, or only other methods do, the router passes the request on or answers 404, or 405 with an Allow header listing the methods of the matching routes, as configured; a non-empty _method parameter replaces the method only when enabled.',
 ['inputs','configurations'], 'every route table (targets of all kinds, parameter names and orders) x every method and path x router settings',
 'Tests use small fixed route tables and one or two parameters.',
 [RT], [('pattern to regexp', RT+':pathToRegExp'), ('dispatch', RT+':handleRequest')], ['which target ran', 'request params', 'wire bytes'])

prop('C18', 'Handler composition answers each request exactly once, by the first taker',
 'A handler stack offers each request to its handler children in order, each at most once, until one takes it, offers it to no handler after that, and reports whether one took it; non-handler children are ignored and later additions and removals take effect. The fixed handler always answers with its current status and content, the 404 handler with a 404 naming the requested path, and the function handler calls its current function exactly once or declines if it has none.',
 ['programs','histories'], 'every tree of handlers, changed in any way between requests, and every request sequence',
 'Tests use one stack with two handlers.',
 [HH], [('stack iteration', HH+':HttpHandlerStack::handleRequest'), ('simple handlers', HH)], ['call log per handler', 'wire bytes'])

prop('C19', 'The request log is complete and truthful',
 'For every request that passed the log handler and completed, exactly one line is written, holding the peer address, the method, URI and version exactly as received, the status and content length of its response and the time it took; in trace mode each request also yields a begin line before it, and a connection that closes yields one close line. Lines of concurrent and successive requests are never mixed, lost or garbled, whatever characters the request holds and whichever connection objects get reused or destroyed.',
 ['inputs','histories'], 'every request text (incl. %-escapes) x mode x interleaving of connections x connection reuse and destruction',
 'Tests log one request with a plain URI.',
 [HH], [('log line format', HH+':HttpHandlerLog')], ['log device contents'])

prop('C20', 'The proxy relays requests and responses faithfully',
 'For every request, the proxied server receives the same method, path, query, headers and content, and the client receives the proxied (registered) response status, end-to-end headers and exact content, however the response is framed (length, chunked, until close, empty) and split, for success and error statuses alike. The relayed response is complete and correctly framed for the client, and a finished exchange holds no reply or connection any more. Without a proxied URL requests are declined.',
 ['inputs','schedules'], 'every request x every upstream response (status, headers, framing, content, segmentation)',
 'Tests relay a few small GET and POST exchanges with 200 responses.',
 [PR], [('request forwarding', PR+':handleRequest/createProxiedReply'), ('pipe', PR+':HttpHandlerProxyPipe')], ['bytes seen by upstream', 'bytes seen by client'])

prop('C21', 'Proxy failures are reported and contained, and exchanges never mix',
 'If the proxied server cannot be reached or fails before sending a response head, the client gets a 503; if it fails in the middle of a response (as the access manager reports it), the client connection ends without the response ever looking complete, unless only the end of the connection delimits it; if the client goes away, the proxied exchange is dropped without harm. Any number of concurrent proxied requests each get their own response, and every client eventually gets an answer or a closed connection.',
 ['fault_sequences','schedules'], 'every failure kind and point on either side (except what QNetworkAccessManager itself never reports: a close inside a chunk size line) x number of concurrent exchanges',
 'Tests try one connection-refused case and a fixed batch of concurrent requests.',
 [PR], [('pipe teardown', PR+':teardown/proxiedReply_finished'), ('elastic manager', PR+':ElasticNetworkAccessManager')], ['client byte stream', 'sanitizer reports', 'live objects'])

prop('C22', 'Script handlers see the request, answer it, and fail safely',
 'A script handler calls its function once per request with the true method, URI, path and query (percent-decoded as UTF-8), headers, params and content of that request, takes the request exactly when the function returns a true value, and answers 500 if the function throws anything before anything was sent. A script file handler loads the named function from its file, answers 500 if the file is missing, broken or lacks the function, recovers once the file is fixed, and with auto reload enabled uses the new version after the file changed.',
 ['inputs','programs','histories'], 'every request x script behaviour (return values, exceptions, partial responses) x file state history',
 'Tests run three fixed scripts.',
 [QS], [('request object and error handling', QS+':HttpHandlerQtScript::handleRequest'), ('file loading', QS+':HttpHandlerQtScriptFile::handleRequest')], ['wire bytes', 'values seen by the script'])

prop('C23', 'The client writes exactly the request it was asked for',
 'For every method, URL, header collection and data, the request the client (and the request writer) sends is one well-formed HTTP/1.1 request with that method, the encoded path and query, a Host header naming the URL host and any non-default port, every given header unchanged in order, and exactly the given data with its correct Content-Length. Successive requests on one connection are delimited so that a server sees exactly the requests made, in order.',
 ['inputs','histories'], 'every method, URL, header set, data size, and sequence of requests',
 'Tests compare a few literal requests.',
 [HL], [('request writer', HL+':HttpRequestWriter::write'), ('URL and Host handling', HL+':HttpClient::sendRequest')], ['bytes received by the server'])

prop('C24', 'Responses are parsed to exactly what the server sent, however split',
 'For every well-formed response (fixed length, chunked, until end of stream, no content, or HTTP/1.0) and every segmentation, the response parser and the client report its status, headers (names, values, order, duplicates) and exact content, and report completion exactly once, at the last byte of the response and not before. Interim 100 responses are skipped.',
 ['inputs','schedules'], 'every response text x every segmentation',
 'Tests parse a few fixed responses in one or two pieces.',
 [HL,P2], [('response parser callbacks', HL+':HttpResponseParser'), ('http_parser', P2)], ['headers()/content()/signals'])

prop('C25', 'Every client request finishes exactly once, with the right outcome',
 'Every request made on an idle client leads to exactly one finished() signal, after which no response is pending, with no error when a full response was received, an invalid-response error for unparsable data, a remote-closed error when the server closed before the full response, and a network error when the connection could not be made; after a failed request the client is able to make new ones successfully. headersCompleted is emitted at most once per request and before any content. This also holds when slots run event loops of their own.',
 ['fault_sequences','crash_points'], 'every server behaviour, with truncation, close, reset or garbage at every byte of the response',
 'Tests try about five fixed failures.',
 [HL], [('error and completion paths', HL+':device_error/device_readyRead/messageComplete')], ['signals', 'error()', 'responsePending()'])

prop('C26', 'A response never shows traces of an earlier one on the same client',
 'The status, headers, content and error a client reports for a request depend only on the response to that request, whatever happened before on the same client or parser object: earlier responses with trailers, compressed content, errors, truncation in the middle of a header or body, or aborts.',
 ['histories'], 'every history of earlier complete, failed, aborted exchanges before the observed one',
 'Tests repeat clean exchanges; leftovers of an interrupted one are a property of histories.',
 [HL], [('per-message reset', HL+':messageBegin/clear/messageComplete')], ['headers()/content()/error()'])

prop('C27', 'Compressed responses are decoded transparently and exactly',
 'A response with gzip content encoding is presented with exactly the uncompressed content, for every content, compression level, framing and segmentation, and content that is not actually gzip is passed through unchanged. Uncompressed responses are never altered.',
 ['inputs','schedules'], 'every content (size, compressibility, compression parameters) x framing x segmentation',
 'Tests decode one small file in one piece.',
 [HL], [('streaming inflate', HL+':GunzipContentTransformer::transform')], ['content()'])

prop('C28', 'The client reuses, drops and redirects connections correctly',
 'A client reuses its connection for the next request exactly when it is still open, to the same host and port, within the keep-alive timeout and not marked as closing, and otherwise opens a new one, so that each request reaches the server named by its URL; with a keep-alive timeout of 0 no connection is reused. followRedirection repeats the request at the redirect location, absolute or relative, and does nothing for a response that is not a redirect.',
 ['histories','configurations'], 'every sequence of requests to several servers x server close behaviour x timeout settings x redirect targets',
 'Tests check one reuse, one timeout and one absolute redirect.',
 [HL], [('reuse decision', HL+':HttpClient::request'), ('redirect', HL+':followRedirection/redirected')], ['which server connection each request arrives on'])

prop('C29', 'Aborting or re-requesting from any callback is safe',
 'abort(), new requests and deletion requests made at any moment, including from inside any signal of the client, are handled without memory errors: an abort of a pending request emits exactly one finished() with the aborted error, an abort of an idle client emits nothing, and a request made from inside a callback of a finished or aborted exchange is sent and completes normally. A request made while another one is pending is refused without disturbing it.',
 ['programs','fault_sequences'], 'every callback x action x response segmentation',
 'Tests call abort from two callbacks with one response each.',
 [HL], [('pending request queue', HL+':HttpClient::request/abort/device_readyRead')], ['signals', 'sanitizer reports', 'bytes received by the server'])

prop('C30', 'The network access manager reports responses, errors and cookies faithfully',
 'A reply from the manager delivers the status, headers and exact content of its own response, emits finished exactly once, and reports an error code when the request failed, was aborted, or could not connect; any number of concurrent and successive requests each get their own response. Request headers, methods and data reach the server unchanged, received cookies are stored and sent back to the same host, and clients are pooled per authority without ever mixing hosts.',
 ['inputs','schedules','fault_sequences'], 'every operation x response x failure x number of concurrent requests to several authorities',
 'Tests fetch a few fixed responses one at a time.',
 [HL], [('reply adapter', HL+':NetworkReply'), ('client pool', HL+':NetworkAccessManager::createRequest/client_finished')], ['reply signals, error, attributes, content', 'bytes received by the server'])

prop('C31', 'Bounded read buffers throttle the server and lose nothing',
 'With a read buffer size set, the client never holds more unconsumed content than a small constant times that size, however much the server sends, and as the application consumes it receives the complete exact content with completion signalled exactly once, for any buffer size, response size, framing and consumption pattern, also if the size is changed or the limit lifted during the response.',
 ['schedules','inputs'], 'buffer sizes x response sizes x framing x consumption patterns',
 'Tests use one buffer size and one consumption pattern.',
 [HL], [('read throttling', HL+':device_readyRead/consumeContent')], ['content().size()', 'concatenation of consumed content'])

prop('C32', 'Header collections behave as ordered case-insensitive multimaps',
 'For every collection and every sequence of appends, concatenations (including of a collection with itself) and lookups, the collection holds exactly the appended headers in order; looking up a field is case-insensitive in ASCII only and yields the first value, or all values in order, or an empty value if absent, and testing a field value is true exactly if some header matches both case-insensitively. All overloads agree with each other.',
 ['inputs','programs'], 'every collection content and sequence of operations through every overload',
 'Tests look up a few names in small collections.',
 [HD,'pillowcore/HttpHeader.h',BA], [('lookups', HD), ('case-insensitive compare', BA+':asciiEqualsCaseInsensitive')], ['return values'])

prop('C33', 'Helper functions are correct over their whole domain',
 'HTTP dates are the RFC 1123 GMT rendering of any date-time in any zone from year 1000 to 9999, number formatting equals the standard decimal or lowercase hexadecimal rendering for every integer, status lookups agree with each other and cover the registered codes, the media type follows the file name extension case-insensitively, and percent decoding never reads or writes outside its buffers.',
 ['inputs'], 'all dates, all integers of each width, all status codes, all names',
 'Tests sample one date, a few numbers and names.',
 [HE,BA], [('dates', HE+':getHttpDate'), ('numbers', BA+':appendNumber'), ('status table', HE+':getStatusCodeAndMessage')], ['return values'])

prop('C34', 'Independent servers and clients in different threads do not interfere',
 'The classes are reentrant: servers, connections, handlers and clients that live in different threads can be used at the same time without data races on shared library state, and each behaves as if it were alone.',
 ['schedules'], 'every interleaving of independent instances in several threads',
 'Tests are single threaded.',
 [HC,HL,BA,HD], [('no mutable globals', 'pillowcore')], ['ThreadSanitizer reports', 'client-visible results'])

prop('C35', 'No byte stream from a server can corrupt or wedge the client',
 'Whatever bytes a server sends in reply, in whatever pieces and with whatever disconnects, the client and the access manager perform no invalid memory access or other undefined behaviour, never spin, report at most one completion per request, and remain usable for the next request.',
 ['inputs','schedules','fault_sequences'], 'every byte stream and segmentation from hostile servers',
 'Tests send one invalid response without sanitizers.',
 [HL,P2], [('http_parser', P2), ('client buffer management', HL+':device_readyRead')], ['sanitizer reports', 'signals', 'follow-up request'])

prop('C36', 'Everything acquired is given back',
 'Whatever servers, connections, handlers, routers, scripts, clients, access managers and replies are used for, and at whatever point a peer leaves or they are aborted, closed or destroyed, the memory, objects and file descriptors taken for it are given back: repeating any use, on new or on long-lived objects, leaves the resources in use where they were, apart from the limited number of objects kept for reuse.',
 ['inputs','schedules','fault_sequences'], 'every use of every class repeated any number of times, with every way and moment of ending it',
 'Tests never count what is left behind, and use each object once or twice.',
 [HC,HL,HH,PR,RT,HS,SS,QS], [('connections recycled or deleted', HS+':connection_closed/takeConnection'), ('client and reply teardown', HL), ('file transfers', HH+':HttpHandlerFileTransfer'), ('pipes', PR+':teardown')], ['allocated heap bytes', 'open file descriptors', 'objects owned by servers and managers'])

prop('C37', 'Data is passed on as soon as it is there, and never hoarded',
 'Whatever has arrived, or was handed over by the application, is passed on at once, without waiting for more data, the end of the message or a timer: a request is announced with its last byte (once the one before it is answered), headers and every piece given to writeContent reach the client before anything else is written, the client and the access manager report the headers, each piece of content (gzip content as far as its sender flushed it) and the end of a response as they arrive, and send their requests at once, and the proxy relays each piece of content before the next one exists. Conversely, a file above the buffer size is sent in portions: no more than the buffer size of it is ever waiting in the output, another portion follows as soon as there is room, and neither its size nor a client that does not read takes up memory or holds up others.',
 ['inputs','schedules','histories'], 'every message, split into pieces that are exchanged in lock-step, on every transport',
 'Tests send whole messages and look at the final result only.',
 [HC,HL,PR,HH,HS], [('requests announced', HC+':processInput'), ('content written', HC+':writeContent'), ('responses reported', HL), ('relay', PR+':proxiedReply_readyRead'), ('file portions', HH+':HttpHandlerFileTransfer')], ['signals after each piece', 'bytes at the other end after each piece', 'bytes waiting in the output', 'heap bytes'])

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    for p in P:
        assert len(p['title']) <= 80, p['id']
    print(len(P), 'properties')
