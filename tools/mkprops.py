#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, os
L = 'libnymea-remoteproxy/'
C = 'libnymea-remoteproxyclient/'
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe))))


p('C01', 'SLIP encoding is lossless and malformed input is rejected',
  'Encoding any byte string yields the escaped bytes followed by exactly one terminator and no terminator inside; decoding that output gives back the original bytes. '
  'Data with a bad or unfinished escape sequence decodes to a null result, and a well-formed non-empty payload is never rejected.',
  ['inputs'], 'every byte string of every length, including all 256 byte values at every position',
  'The tests round-trip a few fixed strings; escape bytes at the edges, long data and malformed tails are not enumerated.',
  ['common/slipdataprocessor.cpp', 'common/slipdataprocessor.h'],
  [('escape/unescape state machine', 'common/slipdataprocessor.cpp serializeData/deserializeData')], observe=['return values of the codec functions'])
p('C02', 'Frame header carries the socket address and payload unchanged',
  'Building a frame puts the 16 bit socket address big endian in front of the unchanged payload, and parsing returns exactly that address and payload. '
  'Data too short to hold an address parses as address 0 with an empty payload.',
  ['inputs'], 'every 16 bit address, every payload, every received byte string',
  'Tests use a handful of addresses and short payloads.',
  ['common/slipdataprocessor.cpp'], [('QDataStream based header codec', 'common/slipdataprocessor.cpp buildFrame/parseFrame')])
p('C03', 'SLIP stream is reassembled independently of how it was cut into chunks',
  'For a server connection in framed mode, the frames delivered depend only on the received byte stream, not on its division into chunks, and each well-formed non-empty frame is delivered exactly once, in order, decoded. '
  'Empty frames are skipped, and a malformed frame is dropped without affecting any frame after the next terminator.',
  ['inputs', 'histories'], 'every byte stream, every division into reads, every buffered prefix',
  'The tests deliver whole frames in one write; splits inside a frame or an escape pair and malformed frames between good ones do not occur.',
  [L + 'tunnelproxy/tunnelproxyclient.cpp', 'common/slipdataprocessor.cpp'],
  [('per client receive buffer', L + 'tunnelproxy/tunnelproxyclient.cpp processData')], [('receive buffer', 'bytes of the unfinished frame', 'TransportClient::m_dataBuffer')])
p('C04', 'JSON packet extraction loses no byte and bounds the buffer',
  'For a connection in JSON mode the delivered packets and the remaining buffer together are exactly the received bytes, cut only at a newline standing between a closing and an opening brace; data ending in a closing brace is delivered completely. '
  'A connection whose undelivered data exceeds 10 KiB is closed without processing anything more of it.',
  ['inputs', 'histories'], 'every received byte string on top of every buffer content',
  'Tests send single, complete and small requests; multi-packet chunks, arbitrary splits and the buffer limit at its edge are not covered.',
  [L + 'tunnelproxy/tunnelproxyclient.cpp', L + 'server/jsonrpcserver.cpp'],
  [('packet splitting', L + 'tunnelproxy/tunnelproxyclient.cpp processData'), ('buffer limit', L + 'server/jsonrpcserver.cpp processData')])
p('C05', 'Client data reaches exactly its own server, framed with its address',
  'Every chunk a registered client sends is forwarded once to the server connection it registered with, as one frame carrying the address assigned to that client and the unchanged bytes, and to no other connection. '
  'Data of a client whose server is gone is dropped and never forwarded elsewhere.',
  ['histories', 'inputs'], 'every reachable registry state, every registered client, every data chunk',
  'Tests use one server with one or two clients and text payloads; they cannot cover all registry states or payloads.',
  [L + 'tunnelproxy/tunnelproxyserver.cpp', L + 'tunnelproxy/tunnelproxyserverconnection.cpp', L + 'server/transportclient.cpp'],
  [('forwarding of client data', L + 'tunnelproxy/tunnelproxyserver.cpp onClientDataAvailable')])
p('C06', 'Server frames reach exactly the addressed client of that server',
  'Each frame a server sends with a non-zero address is delivered unchanged and once to the client of this same server that holds the address, and to nobody if no such client exists; address 0 goes only to the control plane. '
  'Frames are handled in the order received, and a server can never reach a client of another server.',
  ['histories', 'inputs'], 'every reachable registry state, every server, every frame sequence and address',
  'Tests check a few deliveries with two clients; isolation must hold for all addresses and registry states.',
  [L + 'tunnelproxy/tunnelproxyserver.cpp', L + 'tunnelproxy/tunnelproxyserverconnection.cpp'],
  [('demultiplexing of server frames', L + 'tunnelproxy/tunnelproxyserver.cpp onClientDataAvailable')])
p('C07', 'Socket addresses are unique per server and never reserved values',
  'A client that registers gets a socket address that no other client of the same server holds and that is neither 0x0000 nor 0xFFFF, also after the address counter wrapped around. '
  'The server is told exactly this address, the one later used to route the data; if no address is free the registration fails.',
  ['histories'], 'every history of registrations and disconnects, every counter value, every set of addresses in use',
  'It takes more than 65535 registrations to wrap the counter, tests make a few dozen at most.',
  [L + 'tunnelproxy/tunnelproxyserverconnection.cpp', L + 'tunnelproxy/tunnelproxyserver.cpp'],
  [('address allocation', L + 'tunnelproxy/tunnelproxyserverconnection.cpp getFreeAddress/registerClientConnection')])
p('C08', 'Registration is unique and a failed registration changes nothing',
  'A connection registers at most once, as server or client; no two registered connections share a UUID, and a client registers only with an existing server. '
  'A refused registration is answered with an error and leaves every registered server and client as it was; a connection that was refused for anything but a missing UUID is scheduled for closing after the error is reported.',
  ['histories', 'inputs'], 'every registry state, every (re-)registration request with any UUIDs',
  'Tests try a few duplicate registrations; the registry consistency must hold for every sequence and UUID collision between roles.',
  [L + 'tunnelproxy/tunnelproxyserver.cpp'], [('registration', L + 'tunnelproxy/tunnelproxyserver.cpp registerServer/registerClient')],
  [('registry', 'connections, servers and clients by id', 'TunnelProxyServer member maps')])
p('C09', 'Disconnects tear down exactly what depended on the connection',
  'When a server disconnects it leaves the registry and each client attached to it is detached and closed, and no other connection is touched; when a client disconnects its address is freed and its server gets exactly one disconnect notification naming that address. '
  'No registry entry refers to a connection that is gone.',
  ['histories', 'schedules'], 'every registry state, every disconnecting connection, including transports which report the closed clients synchronously',
  'Tests disconnect in one or two orders; re-entrant disconnects during teardown and many attached clients are not exercised.',
  [L + 'tunnelproxy/tunnelproxyserver.cpp', L + 'tunnelproxy/tunnelproxyserverconnection.cpp'],
  [('teardown', L + 'tunnelproxy/tunnelproxyserver.cpp onClientDisconnected')])
p('C10', 'A server can disconnect only its own client, and exactly the one it names',
  'A disconnect request closes exactly the client holding the given address on the requesting server; any other requester, an unknown address or an address outside 16 bits closes no client and is answered with an error. ',
  ['inputs', 'histories'], 'every requester, every address value, every registry state',
  'Tests call it with a valid and one invalid address; wrong roles, foreign addresses and out of range numbers are not covered.',
  [L + 'tunnelproxy/tunnelproxyserver.cpp', L + 'jsonrpc/tunnelproxyhandler.cpp'],
  [('authorization and lookup', L + 'tunnelproxy/tunnelproxyserver.cpp disconnectClient')])
p('C11', 'Every control request gets one matching answer, invalid ones close',
  'Every control packet is answered by exactly one response to its sender, carrying the id of the request (or -1 if it has none); invalid JSON, a missing id, an unknown method or invalid parameters are answered with an error and the connection is closed without executing anything. '
  'A method is executed only if it exists and its parameters passed validation.',
  ['inputs'], 'every received packet',
  'Tests send about a dozen malformed packets; the dispatcher must be right for every packet.',
  [L + 'server/jsonrpcserver.cpp', L + 'jsonrpc/jsonhandler.cpp'], [('dispatcher', L + 'server/jsonrpcserver.cpp processDataPacket')])
p('C12', 'Parameter validation accepts exactly what the published types allow',
  'A parameter map is accepted only if every required parameter is present, every parameter is known and every value can be converted to its declared type; in particular a missing or unknown key or a type mismatch is rejected. ',
  ['inputs'], 'every parameter map against every published template',
  'Tests try a handful of bad parameter maps.',
  [L + 'jsonrpc/jsontypes.cpp', L + 'jsonrpc/jsonhandler.cpp'], [('map/variant validation', L + 'jsonrpc/jsontypes.cpp validateMap/validateVariant')])
p('C13', 'Unregistered and silent connections are closed, active ones are not',
  'Every new connection is closed by an inactivity timeout of the configured length unless it registers first; a registered client is never closed for inactivity. '
  'A registered server is closed after 60 s without received data, and every received chunk restarts that time.',
  ['schedules', 'histories'], 'every configured timeout, every order of connect, data, register and timeout events',
  'Tests wait for one timeout; they cannot cover all event orders and timer arms.',
  [L + 'tunnelproxy/tunnelproxyclient.cpp', L + 'server/transportclient.cpp'], [('inactivity timer', L + 'tunnelproxy/tunnelproxyclient.cpp constructor/activateClient')])
p('C14', 'With TLS enabled nothing is exchanged in clear text',
  'If TLS is enabled, a TCP connection is announced to the proxy and its data delivered only once the TLS handshake finished, with the configured certificate, and a WebSocket server runs in secure mode; if TLS is disabled connections are announced right away. A TCP connection that does not finish the handshake in time is closed.',
  ['configurations', 'schedules'], 'every configuration and every order of socket events',
  'Tests run with one certificate set-up and well-behaved clients.',
  [L + 'server/tcpsocketserver.cpp', L + 'server/websocketserver.cpp'], [('TLS start and announce', L + 'server/tcpsocketserver.cpp SslServer::incomingConnection')])
p('C15', 'Transports pass bytes, connects and disconnects exactly once',
  'Each transport announces an accepted connection once under a fresh id, hands received bytes (WebSocket: text messages) on unchanged under that id, writes outgoing bytes unchanged to the socket of the addressed id only, and reports its disconnect once and then forgets it. '
  'Requests for an unknown id touch no socket.',
  ['histories', 'inputs'], 'every sequence of socket events and calls, any set of connected sockets',
  'Tests exercise a few connections over TCP and WebSocket; the id/socket bookkeeping must hold for all histories.',
  [L + 'server/tcpsocketserver.cpp', L + 'server/websocketserver.cpp', L + 'server/unixsocketserver.cpp'],
  [('client lists of the transports', L + 'server/*server.cpp')])
p('C16', 'Statistics are accurate and computing them changes nothing',
  'The statistics report the true number of connections, servers and clients, list each server with its clients and with the identity and traffic counters of exactly that connection, and computing them changes no state. '
  'The traffic counters count every received and sent byte once.',
  ['histories'], 'every registry state',
  'Tests only look at the reply being a JSON object with a few fields.',
  [L + 'tunnelproxy/tunnelproxyserver.cpp', L + 'server/transportclient.cpp', L + 'server/monitorserver.cpp'],
  [('statistics', L + 'tunnelproxy/tunnelproxyserver.cpp currentStatistics')])
p('C17', 'Configuration loading takes documented values and rejects unusable ones',
  'Loading a configuration file stores the value given for each documented key and the documented default for a missing one; loading fails if the file is missing or, with TLS enabled, the certificate, the key or a configured chain file cannot be loaded. The TLS configuration then carries the certificate and key read from exactly these files, and the server program starts only with a configuration that loaded.',
  ['configurations'], 'every configuration file',
  'Tests load six fixed files.',
  [L + 'proxyconfiguration.cpp', 'server/main.cpp'], [('loader', L + 'proxyconfiguration.cpp loadConfiguration')])
p('C18', 'The tunnel socket server delivers each frame to the right socket',
  'On the device side, each frame from the proxy with a non-zero address is delivered unchanged to the one open socket with that address and to no other; sockets appear and disappear exactly on the connect and disconnect notifications (the proxy does not announce an address in use once more), and carry the name, UUID and peer address announced. '
  'Data written to a socket is sent as one frame carrying the address of that socket.',
  ['histories', 'inputs'], 'every sequence of notifications and frames, every division of the byte stream into chunks',
  'Tests use one or two sockets and whole frames.',
  [C + 'tunnelproxy/tunnelproxysocketserver.cpp', C + 'tunnelproxy/tunnelproxysocket.cpp'], [('demultiplexer', C + 'tunnelproxy/tunnelproxysocketserver.cpp onConnectionDataAvailable')])
p('C19', 'Client data is exposed only after a successful registration',
  'A remote connection passes received bytes to the application only after the proxy confirmed its registration, it closes the connection if the handshake or registration fails, and it returns to its initial state when the connection is lost. '
  'A reported state change always names the state then in effect.',
  ['schedules', 'histories'], 'every order of transport events, replies and API calls',
  'Tests follow the success path and one failure.',
  [C + 'tunnelproxy/tunnelproxyremoteconnection.cpp'], [('state machine', C + 'tunnelproxy/tunnelproxyremoteconnection.cpp')])
p('C20', 'Client requests are matched with their own replies only',
  'Each request of the client library gets an id of its own while unanswered; a reply finishes exactly the request with its id, a notification finishes none, and an unknown id is ignored. ',
  ['inputs', 'histories'], 'every sequence of requests, replies and notifications, arbitrary packets from the proxy',
  'Tests issue one request at a time.',
  [C + 'proxyjsonrpcclient.cpp', C + 'jsonreply.cpp'], [('request table', C + 'proxyjsonrpcclient.cpp')])
p('C21', 'TLS errors of the proxy are never silently ignored by the client',
  'A client connection with TLS errors continues only if the application explicitly chose to ignore them, and an encrypted connection is reported as connected only after the handshake completed. The tunnel client program ignores them only if it was told to accept insecure connections.',
  ['schedules', 'configurations'], 'every order of socket events',
  'Tests always ignore the errors of the test certificate.',
  [C + 'tcpsocketconnection.cpp', C + 'websocketconnection.cpp', 'tunnelclient/clientconnection.cpp', 'tunnelclient/serverconnection.cpp'], [('error hand-over', C + 'tcpsocketconnection.cpp')])
p('C22', 'A running socket server reconnects after losing the proxy',
  'A tunnel socket server that is running and loses its connection closes all its sockets and tries again after a delay; one that was stopped by the application does not. ',
  ['schedules', 'fault_sequences'], 'every order of connection losses, API calls and timer events',
  'Tests do not drop the proxy connection and wait.',
  [C + 'tunnelproxy/tunnelproxysocketserver.cpp'], [('reconnect timer', C + 'tunnelproxy/tunnelproxysocketserver.cpp')])
p('C23', 'Engine start and stop leave a consistent running state',
  'Starting the engine builds all configured transports and the monitor, reports running only after they were started, and stopping it stops and destroys all of them. Any sequence of starts and stops ends, once pending events are handled, in the state of the last one; starting again replaces what ran before.',
  ['histories', 'configurations'], 'every sequence of start and stop calls',
  'Tests start and stop in one pattern.',
  [L + 'engine.cpp'], [('life cycle', L + 'engine.cpp start/stop')])
p('C24', 'The monitor program shows every status message exactly once',
  'Each status message the proxy sends to the monitor program is reported exactly once, in order and with its content, however the byte stream is divided into chunks; an incomplete one waits for its rest, one that is not JSON is skipped, and a new connection starts with no old data. '
  'The monitor asks for the status only while connected, and for the list that was chosen.',
  ['inputs', 'schedules'], 'every byte stream, every division of it into chunks, every order of socket and timer events',
  'There are no tests of the monitor program.',
  ['monitor/monitorclient.cpp', 'monitor/monitor.cpp', 'monitor/noninteractivemonitor.cpp'], [('status messages', 'monitor/monitorclient.cpp onReadyRead/processData')])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        x['statement'] = x['statement'].strip()
        f.write(json.dumps(x) + '\n')
print(len(P))
