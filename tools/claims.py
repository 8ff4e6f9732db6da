NOTES.update({
 'C04': 'All received data and buffers: the receive function is proved against a recursive specification of the cut points; the 10 KiB limit is a postcondition.',
 'C05': 'All registry states satisfying the registry invariant (itself proved inductive), all clients and data.',
 'C06': 'All registry states satisfying the registry invariant, all frames and addresses.',
 'C07': 'All registry states including every counter position and every set of addresses in use.',
 'C08': 'All registry states and requests; the registry invariant is proved to be preserved by every function that changes the registry.',
 'C09': 'All registry states, for the disconnect of every kind of connection; the registry invariant is proved inductive.',
 'C10': 'All registry states, requesters and addresses.',
 'C11': 'All packets and all states of the handler table; the JSON parser and QVariant conversions are uninterpreted (assumed deterministic).',
 'C12': 'All templates and parameters, by mutual induction over the type structure (each validator is proved against the contracts of the others).',
 'C13': 'All states; the QTimer is assumed to fire as documented, its configuration and restarts are proved.',
 'C14': 'All configurations and all orders of socket events: which transport is created and how it is configured is a postcondition of Engine::start, announcing only after the handshake a postcondition of each slot of the TLS server. That Qt encrypts what is written to an encrypted QSslSocket is assumed.',
 'C15': 'All states of the id/socket tables satisfying their invariant (proved inductive over every slot), all data. One known finding (WebSocket transport sends text).',
 'C17': 'All configuration files: QSettings, QFile and the certificate parser are uninterpreted, each documented key is a postcondition.',
 'C23': 'All states of the engine, start and stop called in any order with the queued status change pending or not.',
 'C16': 'All registry states: the counters in the statistics are proved to be those of exactly that connection, and that every transport write is counted once is a clause of the registry invariant.',
})
NOTES['C20'] = 'All request tables satisfying their invariant (ids handed out so far, each request kept under its own id; proved inductive over every call and every packet), all packets; the JSON parser and QVariant conversions are uninterpreted; fewer than 2^31 requests per connection are assumed.'
NOTES['C19'] = 'All states satisfying the state invariant of the remote connection (proved inductive over every slot and API call), with the slots of the application free to call any API of the connection while a signal is emitted; a local event loop started inside such a slot is not covered. One known finding (WebSocket transport sends text).'
NOTES['C21'] = 'All orders of socket events: what each slot of the two transports reports and does is its postcondition, and a call-graph frame condition shows that no other function of the client library relaxes the verification. That QSslSocket verifies the peer and QWebSocket reports Connected only after TLS is assumed.'
NOTES['C18'] = 'All states of the socket server satisfying its invariant (proved inductive over every slot, timer and API call), all chunks: the data slot is proved against the recursive frame specification of C03. Slots of the application may call any API while a signal is emitted; a local event loop inside such a slot is not covered. One known finding (WebSocket transport sends text).'
NOTES['C22'] = 'All states of the socket server satisfying its invariant (proved inductive over every slot, timer and API call), with the slots of the application free to stop or restart the server while a signal is emitted; a local event loop inside such a slot is not covered. QTimer is assumed to fire as documented.'
NOTES['C24'] = 'All received data and buffers: the receive loop is proved to cut the stream at each separator and to keep the rest, so the messages do not depend on the chunks. All orders of socket and timer events. The JSON parser and QVariant conversions are uninterpreted; the windows (ncurses) are outside the claim.'
