import json
P=[]
def p(id,title,statement,over,qtext,why,files,symbols,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,symbols=symbols,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
p("C01","Every built unit of work is a well-formed sequence of X Protocol frames",
 "Whatever sequence of builder calls is made, if Send reaches the transport then the bytes handed over split completely into consecutive X Protocol frames (little-endian length, message type, payload), and every payload is a valid protobuf encoding of that message type with all required fields and no field the schema does not have. The frames appear in exactly the number, types and order of the calls that were made. This holds for any nesting and any size of names, statements, values and row or argument lists.",
 ["programs","inputs"],"all sequences of builder calls (nested scopes included) and all argument sizes, in particular around the 1/2/3/4-byte varint boundaries",
 "the builder package's own tests need a MySQL server and do not run; the xproto tests encode a handful of single messages into a nil buffer",
 ["builder.go","crud.go","xproto/insert.go","xproto/update.go","xproto/xproto.go","xproto/prepare.go","xproto/expect.go","xproto/expr.go","xproto/any.go","slice/slice.go"],
 ["Builder","XPipe.Send","xproto.Insert","xproto.AppendInsertRow","xproto.Update","slice.Insert"],
 [("length back-patching","builder.go Insert/InsertRow/Update, crud.go InsertF/UpdateF, xproto Delete/StmtExecute/Execute"),("size-then-fill encoders","xproto/*.go"),("varint size arithmetic","xproto/protobuf.go")],
 ["buffer passed to netx.Sender.Send"])
p("C02","Statement arguments arrive with their exact value, type, count and order",
 "Every argument of a supported Go type passed to a direct SQL execution or a prepared-statement execution is delivered as one argument of that statement, in call order, that decodes to the identical value with the matching protocol type: signed and unsigned integers of every width, floats bit for bit, booleans, strings and byte slices of any length with their collation or content type, times as their wall-clock text with nine fractional digits, durations as [-]H:MM:SS truncated to whole seconds. nil, nil pointers and nil byte slices arrive as NULL; a non-nil pointer arrives as the value it points to.",
 ["inputs"],"all values of every supported argument type, in any position and mixture",
 "the tests try about 50 values, check one argument at a time and never look at the arguments of an encoded statement",
 ["xproto/any.go","xproto/scalar.go","xproto/protobuf.go","xproto/xproto.go","xproto/prepare.go","expr.go"],
 ["Builder.StmtExecute","Builder.Execute","xproto.AppendAny","xproto.AppendAnyString","xproto.AppendAnyBytes","xproto.AppendDuration","String","JSON","XML","Geometry"],
 [("per-width hand-rolled varint encoders","xproto/any.go"),("pointer unwrapping","xproto/any.go appendAny")],["buffer passed to netx.Sender.Send"])
p("C03","Literals in rows, assignments, criteria arrive with exact value and type",
 "Every Go value of a supported type used inside an inserted row, an update assignment or an expression is delivered as a literal that decodes to the identical value with the matching protocol type: integers, floats bit for bit, booleans, NULL for nil and nil byte slices, strings and byte slices of any length with their collation or content type, times as their wall-clock text with nine fractional digits and durations as [-]H:MM:SS truncated to whole seconds.",
 ["inputs"],"all values of every supported literal type in every position that accepts an expression",
 "the tests try about 50 literals into an empty buffer; rows and assignments are only counted, with 'TODO Value checks' left in the test file",
 ["xproto/expr.go","xproto/scalar.go","xproto/insert.go","xproto/update.go","expr.go"],
 ["xproto.AppendExprString","xproto.AppendExprBytes","xproto.AppendExprBytesString","xproto.AppendInsertRow","xproto.AppendUpdateSet"],
 [("size-then-fill literal encoders","xproto/expr.go")],["buffer passed to netx.Sender.Send"])
p("C04","Expressions arrive as the operator tree the caller built",
 "An expression built from the package's operator, function and column constructors is delivered as exactly that tree: each node carries the X Protocol name of its operator or function (or the column, variable name or placeholder position given) and its operands in the order given, for any depth, operand count, operand kind and size. Building or sending an expression does not consume it: the same expression value can be used any number of times, anywhere, with the same result.",
 ["programs","inputs"],"all expression trees over every exported constructor, of any depth and operand size, used any number of times",
 "the tests build six one-level operators and two functions and compare only the name; operands and nesting are never checked",
 ["expr.go","xproto/expr.go","slice/slice.go"],
 ["And","Or","Eq","In","NotIn","Between","DateAdd","Concat","Column","xproto.AppendExprOperator","xproto.AppendExprFunctionCall","xproto.AppendExprVariable","xproto.AppendExprPlaceholder"],
 [("operands encoded first, header inserted in front","xproto/expr.go AppendExprOperator, AppendExprFunctionCall; slice.Insert")],["buffer passed to netx.Sender.Send"])
p("C05","Inserts, updates and deletes carry exactly the caller's data",
 "Each insert, update and delete message names exactly the given table in the table data model (a delete may leave the model unset), and carries exactly the given columns and rows in order, the given column assignments (each exactly once, as SET operations; in call order for the callback form), and the given criteria, with no criteria when none was given. A single-row insert that captures the generated id is followed by one statement storing LAST_INSERT_ID() in a user variable, the returned expression denotes that same variable, and no two captures in a unit of work share a variable.",
 ["programs","inputs"],"all tables, columns, row sets, assignment sets and criteria, through every insert/update/delete entry point",
 "the tests count columns, rows and operations of five small messages; the builder entry points are not exercised at all",
 ["builder.go","crud.go","xproto/insert.go","xproto/update.go","xproto/xproto.go"],
 ["Builder.Insert","Builder.InsertF","Builder.InsertRow","Builder.Update","Builder.UpdateF","Builder.Delete"],
 [("row length fix-up by shifting","xproto/insert.go AppendInsertRow"),("variable name from buffer length","builder.go InsertRow")],["buffer passed to netx.Sender.Send"])
p("C06","SQL text and prepared-statement ids arrive verbatim",
 "The statement text of a direct execution or of a prepare arrives byte for byte, and prepare, execute and deallocate messages carry exactly the given statement id, for every text (any length, any bytes) and every 32-bit id. The arguments of an execution belong to that execution only.",
 ["inputs","programs"],"all statement texts and all 2^32 statement ids, in any sequence",
 "the tests use three ids and six short statements",
 ["xproto/xproto.go","xproto/prepare.go","builder.go"],["Builder.StmtExecute","Builder.Prepare","Builder.Execute","Builder.Deallocate"],
 [("fixed-width varint writes trimmed afterwards","xproto/prepare.go, xproto/xproto.go")],["buffer passed to netx.Sender.Send"])
p("C07","Encoding does not depend on buffer capacity, history or position",
 "The bytes of a unit of work depend only on the calls made: they are identical for every initial capacity, for a fresh pipe and for one reused after Reset (whatever it held before and whether or not that failed), and messages recorded earlier never change when more are added. Data passed in by the caller (byte slices, rows, columns, argument lists) is never modified, and changing it after the call does not change what was recorded.",
 ["programs","histories","configurations"],"all call sequences, all initial capacities, all previous uses of the same pipe",
 "every xproto test encodes into a nil buffer, so growth, spare dirty capacity, in-place shifting and reuse are never exercised",
 ["slice/slice.go","builder.go","crud.go","xpipe.go","xproto/insert.go","xproto/expr.go","xproto/update.go"],["New","XPipe.Reset","slice.ForAppend","slice.Insert","xproto.AppendInsertRow"],
 [("ForAppend exposes dirty capacity that must be fully overwritten","slice/slice.go"),("in-place overlap copies","slice.Insert, xproto.AppendInsertRow")],["buffers passed to netx.Sender.Send for the same program on differently prepared pipes"])
p("C08","Any build error keeps the whole unit of work from being sent",
 "If any call in building a unit of work fails (an unsupported or failing value, a row of the wrong width passed to the multi-row insert, an unknown isolation level, or an error returned by a scope, insert or update callback), Send returns the first such error and transmits nothing, no matter what was called before or afterwards or how deeply it was nested. Encountering such an error never panics, and Reset makes the pipe as good as new.",
 ["programs","fault_sequences"],"all call sequences with one or more failing calls at any position and depth",
 "no test makes any builder call fail",
 ["builder.go","crud.go","xpipe.go","xproto/any.go","xproto/expr.go","xproto/xproto.go"],["Builder","XPipe.Send","XPipe.Reset","Insert.Row","Update.Set"],
 [("sticky error checked at every entry point","builder.go, crud.go"),("child scope error handed to parent","builder.go call")],["return value of XPipe.Send","calls reaching netx.Sender.Send"])
p("C09","Transactions and expectation blocks are bracketed exactly",
 "A transaction scope emits, in order: the SET TRANSACTION ISOLATION LEVEL statement for its level (none for the default level and the consistent-snapshot level), START TRANSACTION (WITH CONSISTENT SNAPSHOT for the snapshot level), the body's messages, COMMIT. An expectation scope emits an expectation-open with the requested context and the no-error condition on, the body's messages, and the matching expectation-close. Scopes nest properly and each opened scope is closed exactly once, for every body.",
 ["programs"],"all nestings of transaction and expectation scopes with any bodies and all isolation levels and contexts",
 "the tests that use scopes need a MySQL server and look at no bytes",
 ["builder.go","xproto/expect.go"],["Builder.Tx","Builder.ExpectFailOnError","xproto.ExpectOpen","xproto.ExpectClose"],
 [("helper emits brackets around the child callback","builder.go Tx, ExpectFailOnError, call")],["buffer passed to netx.Sender.Send"])
p("C10","A builder is only usable inside its own scope",
 "While a scope, insert or update callback runs, any use of an enclosing builder panics; after a scope's callback has returned, any use of that scope's builder panics. Neither such misuse, nor using an insert or update handle after its callback returned, changes the unit of work in any way.",
 ["programs","histories"],"every builder method, at every nesting depth, called from every wrong scope",
 "no test misuses a builder",
 ["builder.go","crud.go"],["Builder.call","Builder.InsertF","Builder.UpdateF"],
 [("disabled flag on parents during callbacks and on children afterwards","builder.go, crud.go")],["panics observed at the call","buffer passed to netx.Sender.Send"])
p("C11","One response per message, in order, whatever the server interleaves",
 "For every server reply stream that completes each message's sequence, Send returns exactly one response per message sent, in message order: a statement that failed yields a MySqlXError carrying the server's code, SQL state, severity and text, any other yields no error. Notices, result-set metadata and rows (of any number and size) are skipped, the result does not depend on how the network splits the stream, and the connection stays in step for the next Send. Responses already returned are not changed by later sends. A connection object reset onto another network connection starts clean: nothing left unread from the old one answers a message on the new one.",
 ["inputs","histories","schedules"],"all unit-of-work shapes, all conforming reply streams, all fragmentations of the stream, any number of consecutive sends",
 "no test of the network layer runs without a MySQL server",
 ["netx/connection/connection.go","netx/connection/errors.go"],["connection.New","conn.Send","MySqlXError"],
 [("frame loop over a 4096-byte buffered reader with large-frame path","netx/connection/connection.go Read")],["return value of Send"])
p("C12","Broken or hostile reply streams surface as errors",
 "If the connection fails or ends before every message has been answered, if writing fails, if a frame has length zero, if an error message or result-set metadata cannot be decoded, if the server demands authentication in the middle of a unit of work, if it reports a fatal error, or if it answers a session reset with an error, Send returns a non-nil error (the server's MySqlXError for the last two). It never panics, never reports success, and returns as soon as the stream has ended.",
 ["fault_sequences","crash_points","inputs"],"a fault at every byte position of every reply stream, and every malformed frame",
 "no test of the network layer runs without a MySQL server, and none injects faults",
 ["netx/connection/connection.go","netx/connection/errors.go"],["conn.Send","MySqlXError.IsFatal"],
 [("error returns in the frame loop","netx/connection/connection.go Read, ReadResponsesToSlice, Send")],["return value of Send"])
p("C13","A unit of work is one network write under the caller's deadline",
 "Sending a unit of work performs exactly one Write on the network connection, containing exactly the built bytes, before any reply is read, also when that write fails or stops half way. During that write and every read the connection's deadline equals the context's deadline, or is cleared when the context has none, even if an earlier send on the same connection used a different deadline.",
 ["programs","histories"],"all units of work and all sequences of contexts with and without deadlines on one connection",
 "the tests that send need a MySQL server and cannot see writes or deadlines",
 ["netx/connection/connection.go","xpipe.go","builder.go"],["XPipe.Send","conn.Send"],
 [("SetDeadline then Write then read","netx/connection/connection.go Send")],["Write/Read/SetDeadline calls on the net.Conn"])
p("C14","Authentication messages are correct for every credential and challenge",
 "For every user name, password, database (of any length) and server challenge, each mechanism names itself correctly and sends the proof the server expects: MYSQL41 sends database, user and the double-SHA1 scramble in hex after '*' (nothing after the user when the password is empty), SHA256_MEMORY the SHA-256 scramble in hex for a non-empty password, PLAIN the password itself. The messages are well-formed frames for every initial buffer, also those of a user's own mechanism with any name and data, and a server verifying the proof against the stored hash accepts the right password and only that.",
 ["inputs","configurations"],"all credentials without NUL bytes, all challenges, all scratch-buffer capacities",
 "no test covers authentication",
 ["netx/connector/authentication/mysql41/mysql41.go","netx/connector/authentication/sha256/sha256.go","netx/connector/authentication/plain/plain.go","xproto/authentication.go","slice/slice.go"],
 ["mysql41.New","sha256.New","plain.New","xproto.AuthenticateStart","xproto.AuthenticateContinue","conn.Authenticate"],
 [("proof computed in place in a shared 128-byte scratch buffer","authentication/*"),],["bytes written by the client during authentication"])
p("C15","Credentials are protected on the way to the server",
 "When a TLS configuration is given for a TCP connection, the only thing the client sends in clear is the request to enable TLS: authentication starts only inside a TLS session established and verified as that configuration demands (and with its client certificates), and if TLS is refused or cannot be established the attempt fails. Nothing the server sends in clear before the TLS session is ever interpreted after it. On an unencrypted TCP connection the clear-text password is never sent unless PLAIN was explicitly selected, whatever the server answers. A connection reports itself secure exactly when it runs inside TLS or over a Unix socket.",
 ["fault_sequences","inputs","configurations"],"all server behaviours during connection set-up (refusals, injected messages, bad certificates, access-denied errors) on TCP, TLS and Unix sockets, for every mechanism",
 "no test covers TLS, and none drives a misbehaving server",
 ["netx/connector/connector.go","netx/connection/connection.go","xproto/authentication.go"],["connector.New","Connector.New","WithTLSConfig","WithAuthentication","xproto.CapabilitySet","conn.IsSecure"],
 [("capability negotiation then tls.Client then reader reset","connector.go New, connection.go Reset"),("IsSecure guard on the PLAIN fallback","connector.go New")],["raw bytes seen by the server","result of Connector.New"])
p("C16","Connecting yields an authenticated connection or an error and a closed socket",
 "Opening a connection turns to the server each time and returns a connection exactly when it accepted the authentication, and that connection then works; in every other case it returns a non-nil error and the underlying socket has been closed. When the configured mechanism is answered with access denied on a secure channel (TLS or Unix socket), PLAIN is tried once on the same connection before giving up (and in no other case, and whatever happened to earlier connections of the connector), and if that fails too the first error is reported. A challenge that cannot be decoded is not answered. A connector whose option fails is not created, and that error is returned.",
 ["fault_sequences","crash_points","configurations"],"all failures at every step of connection set-up on TCP, TLS and Unix sockets, for every mechanism",
 "no test opens a connection without a MySQL server",
 ["netx/connector/connector.go","netx/connection/connection.go"],["Connector.New","conn.Authenticate"],
 [("close on every error path","connector.go New"),("PLAIN fallback","connector.go New")],["result of Connector.New","server side of the socket"])
p("C17","A pooled connection serves one unit of work at a time, oldest idle first",
 "However many goroutines send through a pool, a connection is never used by two sends at once, each send's bytes go to exactly one connection exactly once, under the caller's own context (its deadline neither dropped nor shortened), as is the opening of a connection, and the caller gets that connection's own responses and error, including the responses that came before an error. An idle connection is preferred over opening a new one, and among idle connections the one that has been idle longest is used, however long that is.",
 ["schedules","histories"],"all interleavings of concurrent sends on pools of any size",
 "the pool has no tests",
 ["netx/pool/fifoch/fifoch.go"],["fifoch.New","poolCh.Send"],[("buffered channel as FIFO queue","fifoch.go")],["calls on netx.Connector and netx.Conn made by the pool"])
p("C18","The pool neither leaks nor reuses spoiled connections",
 "Every connection the pool opens is at any quiet moment either idle in the pool or closed; at most the configured number are idle; a healthy connection is kept while there is room, the surplus is closed. A connection whose send returned an error, or whose responses contained an error, is closed and never used again, so no open transaction is handed to the next caller. A failed attempt to open a connection, or a cancelled context when no connection is idle, is reported to that caller and affects nobody else; an opening or a send that takes long does not hold up other callers.",
 ["schedules","histories","fault_sequences"],"all interleavings of concurrent sends with failures of any connection at any point, on pools of any size",
 "the pool has no tests",
 ["netx/pool/fifoch/fifoch.go"],["fifoch.New","poolCh.Send"],[("close on error, non-blocking return to the channel","fifoch.go Send")],["calls on netx.Connector and netx.Conn made by the pool"])
p("C19","Closing a pool is safe at any time",
 "Close may be called at any moment, repeatedly and concurrently with sends and other closes, and never panics. Once a Close has returned without error and no other Close is still running, every idle connection has been closed, sends started later fail with ErrPoolClosed without opening or using a connection, and sends that were in flight complete normally and their connections are then closed, not kept. A connection that fails to close does not keep Close from closing the others.",
 ["schedules","histories"],"all interleavings of Close calls with sends in every stage",
 "the pool has no tests",
 ["netx/pool/fifoch/fifoch.go","netx/pool/pool.go"],["poolCh.Close","poolCh.Send","pool.ErrPoolClosed"],[("channel closed once, returns guarded","fifoch.go Close, Send")],["calls on netx.Conn made by the pool","results of Send and Close"])
p("C20","Units of work are atomic end to end through the pool",
 "A unit of work built as a transaction inside a fail-on-error scope and sent through a pool takes effect completely or not at all on a server that follows MySQL's session rules: if Send reports no error and no response is an error, all of its changes are committed, and if the commit was answered with an error none of them ever becomes visible. This holds for statement errors at any position, fatal errors and connections lost at any point, and no later unit of work from any goroutine can commit, lose or mix with another's changes.",
 ["fault_sequences","crash_points","schedules","histories"],"all failure positions and connection losses over all histories of concurrent units of work sharing a pool",
 "no test runs against any server, real or simulated, and none injects failures",
 ["builder.go","netx/connection/connection.go","netx/pool/fifoch/fifoch.go","xpipe.go"],["Builder.ExpectFailOnError","Builder.Tx","XPipe.Send","poolCh.Send"],
 [("expectation block skips COMMIT after an error","builder.go"),("failed connections are not reused","fifoch.go")],["rows committed on the (simulated) server against responses seen by the client"])
p("C21","No data races between independent users of the library",
 "Goroutines that share only what the API allows to be shared (a pool, a connector, expression values, value wrappers) and each use their own pipe run without data races, and what each one sends is the same as if it had run alone.",
 ["schedules"],"all interleavings of goroutines building, connecting, sending through and closing shared pools",
 "no test uses more than one goroutine or the race detector",
 ["netx/pool/fifoch/fifoch.go","netx/connector/connector.go","expr.go","xproto/protobuf.go","xproto/authentication.go"],["fifoch.New","Connector.New","In","Concat","xproto.CapabilitySet"],
 [("mutex around pool state, stateless expressions, read-only shared tables","fifoch.go, expr.go, xproto/protobuf.go")],["Go race detector reports","bytes sent per goroutine"])
p("C22","Decimals decode to their exact value",
 "Every DECIMAL in the protocol's packed form (scale byte, digits, sign nibble, optional padding) of up to 65 digits decomposes into exactly its sign (also that of a zero), coefficient and exponent, and its text form denotes exactly the same number with exactly the encoded number of fraction digits. The decoded bytes are not modified. The 256-bit accumulator behind it multiplies and adds exactly, returns what exceeds 256 bits, and is appended as its big-endian bytes without leading zeros.",
 ["inputs"],"all digit strings, scales, sign nibbles and paddings; all 256-bit values and 64-bit factors and addends",
 "the types package has no tests",
 ["types/decimal.go"],["Decimal.Decompose","Decimal.String","Uint256.MulAdd","Uint256.AppendBytes"],[("256-bit accumulate","types/decimal.go")],["results of Decompose and String"])
p("C23","Collation ids and names agree with MySQL's",
 "Every named collation constant has MySQL's id for that collation, its text form is MySQL's name for it, no two ids share a name, an unknown id is rendered as Collation(<id>), and a string tagged with any collation is delivered with exactly that id. Only the id of 'binary' is binary.",
 ["inputs"],"all collation ids",
 "the collation package has no tests; names are substrings of one long string cut by hand-maintained offsets",
 ["collation/collation.go","expr.go","xproto/any.go","xproto/expr.go"],["Collation.String","Collation.IsBinary","String"],[("offset table into one name string","collation/collation.go")],["Collation.String","buffer passed to netx.Sender.Send"])
p("C24","Server errors can be told apart by their code",
 "Every error-code constant of package errs has the code MySQL (or its X plugin) uses for the error of that name, and no two constants are equal. An error the server sends reaches the caller with exactly the code, severity, SQL state and message sent, whichever code it is, so that comparing its code with the constants identifies it. IsFatal is true exactly for FATAL severity, and the error's text is its severity, the code in decimal, the SQL state in parentheses, a colon and the message.",
 ["inputs"],"all error codes, severities, SQL states and messages",
 "no test mentions an error code; the table of 1114 constants is maintained by hand, and no test of the network layer runs without a MySQL server",
 ["netx/connection/errs/codes.go","netx/connection/errors.go","netx/connection/connection.go"],["errs","MySqlXError","MySqlXError.Error","MySqlXError.IsFatal"],[("hand-maintained code table","netx/connection/errs/codes.go"),("error decoding","netx/connection/connection.go Read")],["responses and error of Send"])
p("C25","Protocol constructors append exactly one message or field to any buffer",
 "The exported constructors of package xproto (session reset, capability set, expectation open with any list of conditions, expectation close, statement, prepare, execute, deallocate, delete) append exactly one complete message of their type, and the value and expression encoders (xproto's, those of the value wrappers, and every expression constructor's) exactly one field with the field number asked for (1 to 15), whatever the buffer already holds and whatever its capacity: earlier bytes stay as they are, leftovers in the spare capacity never show, and the message or field decodes to exactly the arguments given (expectation conditions in order with their key and value of any length, duration text, operator and function names with their parameters).",
 ["inputs","configurations"],"all arguments, field numbers and buffer states",
 "the xproto tests append a handful of values to a nil buffer with one field number; expectations with field-existence conditions, resets and capabilities are not tested at all",
 ["xproto/xproto.go","xproto/expect.go","xproto/prepare.go","xproto/authentication.go","xproto/any.go","xproto/expr.go","xproto/scalar.go"],["xproto.Reset","xproto.CapabilitySet","xproto.ExpectOpen","xproto.OpenConditionExpectFieldExists","xproto.OpenConditionExpectNoError","xproto.ExpectClose","xproto.StmtExecute","xproto.Prepare","xproto.Execute","xproto.Deallocate","xproto.AppendExprOperator","xproto.AppendExprFunctionCall","xproto.AppendAnyBytes","xproto.AppendDuration"],[("size-then-fill encoders with length prefixes written in place","xproto/*.go")],["bytes appended by the constructor"])
p("C26","A unit of work is handed over once per Send and can be sent again",
 "Send on a pipe without a build error hands the unit of work (an empty one too) to the sender exactly once, under the caller's context (its deadline, cancellation and values), and returns the sender's responses and error as they are. Sending does not consume or alter the unit of work: whether it succeeded or failed, sending again transmits the same bytes, so a caller can retry after any failure on any layer (connection, pool, connector); further calls append behind it, and Reset starts an empty one.",
 ["histories","fault_sequences","inputs"],"all units of work, all outcomes and sequences of repeated sends, all contexts",
 "no test that runs calls Send; retries after failures need injected faults",
 ["xpipe.go","builder.go","netx/netx.go","netx/connection/connection.go","netx/pool/fifoch/fifoch.go"],["XPipe.Send","XPipe.Reset","Builder.send"],[("the pipe's buffer is shared with the sender","builder.go send")],["netx.Sender.Send calls","bytes written to the network connection"])
p("C27","A caller's deadline bounds connecting and sending",
 "When the context has a deadline, opening a connection and sending a unit of work (directly or through a pool) return an error soon after that deadline, whatever the server does: staying silent or sending without end at any stage of connecting, TLS, authentication, the PLAIN retry or the replies, or not reading what is sent. A server that answers in time, however slowly, is waited for as long as the deadline allows, or without limit when there is none. A deadline that passes after its call has returned does not affect later calls on the same connection.",
 ["fault_sequences","schedules","histories"],"all stages of connecting and sending, all ways a server can stop cooperating, all deadlines",
 "the tests that connect need a MySQL server and none stalls; hanging for ever needs a particular stage and behaviour",
 ["netx/connector/connector.go","netx/connection/connection.go","netx/pool/fifoch/fifoch.go"],["Connector.New","conn.Send","conn.Authenticate","poolCh.Send"],
 [("deadline set before each exchange and in force during the TLS handshake","netx/connection/connection.go WriteOne, Send; netx/connector/connector.go New")],["return of New and Send"])
p("C28","The buffer helpers keep every byte in its place",
 "For every slice (of any length and capacity), count and position: growing a buffer for appending keeps its bytes and returns exactly the requested number of bytes as its end; inserting a gap keeps the bytes before it and moves the bytes behind it unchanged; allocating returns exactly the requested number of bytes as the end of a buffer that holds before them either nothing or what was there. No byte outside the slice they return is written.",
 ["inputs"],"all lengths, capacities, positions and counts",
 "the package has no tests; its callers exercise few capacity combinations",
 ["slice/slice.go"],["ForAppend","Insert","Allocate"],[("capacity decides between in-place and copy","slice/slice.go")],["returned slices","bytes around the slice"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))


