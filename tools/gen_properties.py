import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
H=["histories","fault_sequences"]
DLG="dialog/dialog.go"
p("P01","Messages of a dialog carry the right dialog ID and an unbroken number sequence",
 "Every dialog a client starts begins with a message that carries dialog ID 0 and message number 1; every later message of that dialog carries the dialog ID the bank assigned in its reply and the previous number plus one, and the number in the message trailer equals the one in the header. This holds for every sequence of operations on one client, including after earlier operations failed at any point.",
 H,"all sequences of client and dialog operations, all points at which a request or reply is lost, refused or damaged, both protocol versions",
 "The tests replay at most three canned replies through a mock that never looks at the request's dialog ID or number, so no history with a failed first exchange is reached.",
 [DLG,"message/message.go","segment/message_header.go"],[("message counter and dialog ID bookkeeping",DLG)],
 [("dialogID","the bank's ID of the open dialog, 0 before",DLG),("messageCount","number of the last message sent",DLG)],["decoded request bytes at the transport"])
p("P02","Every dialog the bank opened for an operation is ended exactly once",
 "Whenever the client has received a reply that opens a dialog, it sends exactly one dialog-end message for it before the operation returns, naming that dialog's ID, whatever happens to the job in between (success, refusal, transport failure, unusable reply). After the end message nothing more is sent in that dialog, and no end message is sent for a dialog that was never opened.",
 H,"all operations, all outcomes of every exchange of the operation",
 "Tests check call counts on successful flows only; error exits between opening and ending are not exercised.",
 [DLG,"message/dialog.go"],[("deferred dialog end",DLG)],None,["decoded request bytes at the transport"])
p("P03","Requests are well-formed and carry the caller's data unchanged",
 "Every message sent parses under the FinTS wire grammar: stated size equals actual size, segments are numbered consecutively from 1, binary lengths match, the signature header and trailer share one control reference and appear exactly once when the dialog is authenticated, and header and trailer numbers agree. Every value the caller supplied (account, user ID, PIN, product, dates, limits) is recovered exactly, whatever characters it contains that the character set can express; a value that cannot be expressed yields an error and no message.",
 ["inputs","histories","configurations"],"all credentials, product names, accounts and dates over the wire character set including syntax characters, both protocol versions, all operations",
 "Tests compare a few literal messages without special characters.",
 ["message/message.go","element/data_element.go","segment/segment.go","charset/convert.go"],[("marshalling and escaping","element/data_element.go"),("size and position computation","message/message.go")],None,["decoded request bytes at the transport"])
p("P04","PIN and job data leave the client only inside the encrypted envelope",
 "The PIN and the content of an authenticated job appear in what is sent only inside the encrypted part of messages posted to the configured URL, and with debug logging off the PIN never appears in standard output, standard error, log output or returned errors, whatever faults occur. Anonymous requests never contain the user's PIN or user ID.",
 ["histories","fault_sequences","inputs"],"all operations, all faults, all PINs",
 "Tests never inspect log output, error texts or outer message parts for the secret after failures.",
 ["message/message.go","message/encryption.go","transport/middleware/logging.go","internal/logger.go",DLG],[("encryption envelope","message/message.go"),("conditional logger","internal/logger.go")],None,["transport requests","stdout/stderr","errors"])
p("P05","A transaction query returns exactly the bank's transactions, in order",
 "When a national or SEPA account transaction query reports success, the result is exactly the list of booked transactions the bank delivered for it, in the bank's order, each once, with amount, sign, dates, purpose, counterparty and references unchanged, no matter how the bank splits them over pages, segments and statements. If any page cannot be obtained the query returns an error and never a partial list; an account without bookings yields an empty list.",
 ["histories","fault_sequences","schedules"],"all ledgers, all page/segment/statement partitions, clock behaviours, transports chunkings and faults on any page",
 "Client tests use one canned reply; merging, continuation and failed later pages are not exercised.",
 ["client/client.go","swift/mt940.go","swift/unmarshal.go","segment/account_transaction.go","domain/account_transaction.go"],[("continuation recursion","client/client.go"),("merge of statements","swift/mt940.go")],None,["client API results"])
p("P06","Reported bank data do not depend on the client's own clock",
 "The dates, times and order reported for a fixed sequence of bank replies are the same whatever the local clock shows, however it jumps while the operation runs and whatever the local time zone is. A transaction query without an explicit date range asks for one and the same range on every page, also when midnight passes meanwhile.",
 ["schedules","histories","configurations"],"all clock readings, jumps (forward, backward, midnight, year change) between any two clock reads, time zones",
 "Tests run at one real time; no seam for the clock exists and one of the package tests even fails depending on the time of day.",
 ["swift/mt940.go","swift/unmarshal.go","segment/status_protocol.go","segment/account_transaction.go","domain/time.go"],[("date parsing","swift/mt940.go"),("time stamps on statements","swift/unmarshal.go")],None,["client API results"],"clock seam (source instrumentation at build, no change in /repo)")
p("P07","Balance queries return exactly the balances the bank sent",
 "When a national or SEPA balance query reports success, the result contains exactly the balances the bank delivered for it in the bank's order, each once, with account, product, currency, amount, sign and dates unchanged, also when they are spread over several pages. If a page cannot be obtained the query returns an error and never a partial list.",
 H,"all balance sets, optional field combinations, segment versions, pagings and faults on any page",
 "Tests use one canned balance and no continuation.",
 ["client/client.go","segment/account_balance.go","element/account.go","domain/account_balance.go"],[("balance conversion","segment/account_balance.go"),("continuation recursion","client/client.go")],None,["client API results"])
p("P08","The account list equals the bank's current one, without duplicates",
 "A successful account list query returns exactly the accounts of the most recent user parameter data the client received from the bank, each once, in the bank's order, with all delivered details unchanged. Repeating the query, or running any other operations in between, neither adds duplicates nor keeps accounts the bank has since removed, and a list once returned belongs to the caller: later operations do not change it, and changing it does not change later answers.",
 H,"all account sets, changes of the set between operations, numbers of synchronisations and repeats, banks that resend the data with every dialog",
 "Tests call the method once on a fresh client.",
 [DLG,"client/client.go","segment/account_information.go","element/account.go","domain/account_information.go"],[("user parameter data reception",DLG)],[("Accounts","accounts from user parameter data",DLG)],["client API results"])
p("P09","A rejection by the bank is reported as an error; warnings are not",
 "If a bank reply to an opening, synchronisation or job message carries an error code (9000 and above) on message or segment level, the operation returns an error that contains the bank's code and text, and after a refused opening or synchronisation the job is not sent. Success and warning codes alone never make an operation fail.",
 H,"all positions of acknowledgements in all replies of an operation, all codes, several acknowledgements per segment, several segments",
 "Tests cover one error code in one reply.",
 [DLG,"client/client.go","message/decryption.go","element/acknowledgement.go","segment/acknowledgement.go","domain/acknowledgement.go"],[("acknowledgement evaluation",DLG),("classification","domain/acknowledgement.go")],None,["client API results","requests at the transport"])
p("P10","A reply that was cut short is never taken for a complete one",
 "If the connection breaks or ends before the complete reply has been delivered, at whatever byte and with or without a read error, the affected operation does not report success based on that reply. How the reply is split into reads never matters.",
 ["fault_sequences","crash_points"],"all byte positions in all replies, all read chunkings, error and clean end of stream, read and close errors, HTTP and custom transports",
 "Tests deliver complete bodies from memory only.",
 ["transport/transport.go","transport/middleware/logging.go","transport/middleware/encoding.go",DLG,"message/segment_extractor.go"],[("reading the response","transport/transport.go"),("body copy for logging","transport/middleware/logging.go")],None,["client API results"])
p("P11","No bank reply makes the client crash or hang",
 "Whatever bytes a bank or an intermediary returns, including syntactically valid messages with missing, empty, surplus, oversized or mistyped elements and damaged bytes at any place, every operation ends in a bounded number of steps and memory with a result or an error, and never with a crash of the calling program.",
 ["inputs","fault_sequences"],"all replies derived from valid ones by dropping, emptying, duplicating, reordering or damaging parts, at every exchange of every operation",
 "Tests cover a handful of malformed literals per parser; no end-to-end history with a damaged reply is run.",
 ["token/lexer.go","message/segment_extractor.go","element/data_element.go","segment/segment.go","swift/mt940.go",DLG,"client/client.go"],[("lexers and unmarshalers","token/lexer.go")],None,["client API results"],"step counter (source instrumentation at build, no change in /repo)")
p("P12","After disturbances end, the next operation succeeds again",
 "Once the bank and the network behave again, the next operation on the same client succeeds with correct results within the normal number of exchanges, whatever failures earlier operations met and wherever they met them; a client that has a system ID and parameter data does not synchronise again. No failure leaves a client permanently unable to talk to the bank.",
 H,"all histories of operations with faults in any exchange followed by a fault-free suffix",
 "No test uses a client again after a failure.",
 [DLG,"client/client.go","message/encryption.go","message/signature.go"],[("per-dialog state reset",DLG)],[("dialogID/messageCount/ClientSystemID","state that survives a failed operation",DLG)],["client API results"])
p("P13","The customer system ID is acquired once and used consistently",
 "Before its first job a client without a customer system ID obtains one from the bank; after a successful synchronisation every message of every later dialog carries, in all places that name it, the ID most recently assigned by the bank or set by the caller, and only a synchronisation message carries the placeholder 0. A failed synchronisation never leaves different parts of a message naming different IDs.",
 H,"all histories of operations, repeated synchronisations, IDs set by the caller, and faults",
 "Tests use a mock that ignores the ID in requests.",
 [DLG,"message/encryption.go","message/signature.go","dialog/pin_tan_dialog.go"],[("propagation of the ID to signing and encryption",DLG)],[("ClientSystemID","ID assigned by the bank",DLG)],["decoded request bytes at the transport"])
p("P14","The security function used is one the bank offers, chosen consistently",
 "When the bank names the security functions permitted for the user, every authenticated message after that reply uses a function which the bank both permits and describes, in signature header, and the choice depends only on the history of replies and stays the same while it remains permitted. Changing the PIN does not lose it.",
 ["histories","schedules","configurations"],"all offers of permitted and described functions, changes between dialogs, repeated offers, PIN changes, runtime map orders",
 "Tests offer one function once; the random choice among several cannot be pinned by a test.",
 [DLG,"dialog/pin_tan_dialog.go","message/signature.go","segment/tan.go"],[("selection of the function",DLG)],[("securityFn","function in use",DLG)],["decoded request bytes at the transport"],"map iteration seam (source instrumentation at build, no change in /repo)")
p("P15","Announced parameter data versions are those last received",
 "Every dialog opening announces exactly the versions of bank and user parameter data most recently received and kept from this bank (0 before any), and a synchronisation announces 0 for both. Newer data replace older data as a whole: versions, supported jobs and user identification always stem from the same most recent reception.",
 H,"all histories with version changes of either data set, replies with one, both or none, and faults",
 "Tests never look at the announced versions after an update.",
 [DLG,"segment/identification.go","segment/common_bank_parameter_data.go","segment/user_parameter_data.go"],[("parameter data reception",DLG)],[("BankParameterData/UserParameterData","kept parameter data",DLG)],["decoded request bytes at the transport"])
p("P16","Job requests use the best version both sides support, or none is sent",
 "For balance, transaction and status jobs the request uses the highest segment version that both the library and the bank's current parameter data support and that fits the kind of account given; if there is none the operation returns an error without sending a job. The parameter data that count are those the client had received from the bank when it builds the request; the choice follows their changes.",
 ["histories","configurations"],"all sets and orders of job versions announced by the bank, changes between operations, all job kinds",
 "Tests pin a few version lists; changes of the bank's offer within one client's life are not exercised.",
 ["segment/hbci_version.go","client/client.go","message/decryption.go","segment/account_balance.go","segment/account_transaction.go","segment/status_protocol.go"],[("request builder","segment/hbci_version.go")],None,["decoded request bytes at the transport"])
p("P17","Each job is submitted at most once and each exchange is posted once",
 "One call of an operation submits each job (each page of a job) to the bank at most once and never sends a message of a dialog twice, whatever fails; in particular a request whose reply was lost is never repeated automatically, so a job with effects cannot be executed twice.",
 H,"all operations, all faults before and after the bank processed a message",
 "Tests with one success path cannot show absence of resends under lost replies.",
 [DLG,"client/client.go","transport/https/https.go"],[("single pass through the transport",DLG)],None,["requests at the transport"])
p("P18","Paging continues the same query with the bank's reference verbatim",
 "When the bank marks a result as continued, the follow-up request repeats the same job with the same account, date range, scope and limits and carries the bank's continuation reference character for character; follow-ups are sent until the bank stops marking, each reference once, and never without such a mark; a mark that repeats a reference already used makes the operation fail, as it would never come to an end. A reference given by the caller for the first request is used in the same way.",
 ["histories","inputs"],"all page counts, all references over the wire character set, all paged jobs, clock changes between pages",
 "No test contains a continuation.",
 ["client/client.go","segment/account_transaction.go","segment/account_balance.go","segment/status_protocol.go","element/acknowledgement.go"],[("continuation handling","client/client.go")],None,["decoded request bytes at the transport"])
p("P19","Clients used concurrently do not influence each other",
 "When several clients with different users, banks, protocol versions or transports work at the same time in one process, each of them sends the same messages and obtains the same results as if it worked alone, under every interleaving of their steps.",
 ["schedules","histories"],"all interleavings of the statements of 2-4 concurrent clients each running a random operation history",
 "Tests run one client at a time, and thread schedules are not controlled.",
 ["client/client.go",DLG,"segment/segment.go","message/decryption.go","transport/https/https.go","internal/logger.go"],[("no shared mutable state between clients",DLG)],None,["client API results","requests at the transports"],"yield points (source instrumentation at build, no change in /repo)")
p("P20","Transports deliver bytes exactly, report failures and release resources",
 "Every exchange posts exactly the base64 encoding of the message to the configured URL and to no other, whatever an answer redirects to, and hands back exactly the decoded reply, independent of how reads are split and of whether debug logging is on. A failed exchange, an undecodable body or a non-200 answer makes the operation fail, and every response body obtained is closed by the time the operation returns.",
 ["fault_sequences","configurations"],"all chunkings, read/close/connection errors, HTTP statuses, encodings with line breaks or garbage, logging on and off, default and custom HTTP clients",
 "The mock bodies are in-memory, need no closing and never fail.",
 ["transport/https/https.go","transport/middleware/encoding.go","transport/middleware/logging.go","transport/transport.go"],[("HTTPS transport","transport/https/https.go"),("base64 middleware","transport/middleware/encoding.go")],None,["http.RoundTripper","client API results"])
p("P21","Bank directory lookup and URL/version defaults are applied consistently",
 "A client configured with only a bank code talks to the address and in the protocol version the bank directory lists for that bank (where it has several listings, one with an access address), explicit settings take precedence in every message of every dialog, and an unknown bank or unsupported version yields an error at construction instead of a client that talks to nowhere.",
 ["configurations","histories"],"all bank codes of the directory and unknown ones, all combinations of explicit settings",
 "Tests sample two entries.",
 ["client/client.go","bankinfo/bank_data.go","bankinfo/bank_info.go"],[("lookup","bankinfo/bank_data.go")],None,["requests at the transport"])
p("P22","Importing a bank directory file is all or nothing under I/O faults",
 "Reading a bank directory delivers exactly the entries of the file in order, independent of how reads are split; if reading fails or the input ends inside a quoted value, an error is returned and never a silently shortened or altered directory. The import tool exits with status 0 exactly when the generated directory was written completely and contains exactly the entries of its input files, and leaves the existing directory alone when its input cannot be read.",
 ["fault_sequences","inputs"],"all directories, chunkings, values, and positions of read, create, write and close failures",
 "Tests read complete in-memory strings; the tool has no tests.",
 ["bankinfo/parser.go","cmd/bankdata_parser/bankdata_parser.go"],[("CSV parsers","bankinfo/parser.go"),("code generation","cmd/bankdata_parser/bankdata_parser.go")],None,["parser API results","exit status and written file"],"file and exit seams (source instrumentation at build, no change in /repo)")
p("P23","A status query returns exactly the bank's protocol entries",
 "A status query is offered whenever the bank supports it, and when it reports success the result is exactly the list of protocol entries the bank delivered, in order, each once, with references, code, text and transmission time unchanged, also when spread over several pages. If a page cannot be obtained an error is returned and never a partial list.",
 H,"all protocol entry sets, versions, date/limit arguments, pagings and faults",
 "No test runs a status query end to end.",
 ["client/client.go","segment/status_protocol.go","segment/hbci_version.go","domain/acknowledgement.go"],[("status request and response","segment/status_protocol.go")],None,["client API results","decoded request bytes at the transport"])
p("P24","Anonymous dialogs identify nobody and end properly",
 "An anonymous request runs in a dialog of its own that names the anonymous customer, carries no signature, no encryption and no user data, is numbered from 1 and is ended exactly once when it was opened; rejections are reported as errors and no job is sent after a refused opening. A later authenticated operation on the same client is not affected by it, nor by user parameter data the bank delivers for the anonymous customer.",
 H,"all histories mixing anonymous and authenticated operations, with faults",
 "One canned flow is tested.",
 [DLG,"client/client.go","message/message.go"],[("anonymous dialog",DLG)],None,["decoded request bytes at the transport","client API results"])
p("P25","The command line tool reports failure exactly when the operation failed",
 "Each command of the banking tool prints the complete result and exits with status 0 when the bank delivered it, and exits with a non-zero status without printing a partial result when the operation failed for whatever reason; a result that cannot be written is a failure. It asks the bank for exactly what the flags say (account, days, kind of account), with user and bank taken from the flags or else from the remembered configuration; a command that lacks a PIN, user, known bank or valid account number sends nothing; the PIN is never stored.",
 ["histories","fault_sequences","configurations"],"all commands, flag combinations, sequences of invocations sharing a configuration file, all faults in all exchanges and in writing the configuration",
 "The command package has no tests.",
 ["cmd/banking/accounts.go","cmd/banking/balances.go","cmd/banking/transactions.go","cmd/banking/root.go","iban/iban.go","domain/account_transaction.go","domain/account_balance.go"],[("error to exit status","cmd/banking/root.go")],None,["stdout and exit status","requests at the transport","configuration file"],"process exit seam (source instrumentation at build, no change in /repo)")
p("P26","Keys are random, signatures fit the message",
 "A message key is 16 bytes drawn anew from the random source; when the random source fails, an error is reported and never a key or an encrypted text. A signing key reports the modulus and exponent of its private part, an encryption key those it was made of. A message signed with an RSA key carries a signature which the public part verifies over exactly the bytes sent, from the signature header up to the signature end, and the header names the key, signature ID, time and system ID in force when it was signed. What is encrypted for a public key is decrypted unchanged by its private part.",
 ["histories","fault_sequences","inputs"],"all sequences of key generation, signing and encryption, all messages, key names and system IDs, all failures and short reads of the random source",
 "The tests sign one message with a mock and take the random source as it is.",
 ["domain/key.go","message/signature.go","message/encryption.go","message/message.go"],[("message key","message/encryption.go"),("RDH signature","message/signature.go"),("bytes that are signed","message/message.go"),("RSA keys","domain/key.go")],None,["API results","signed message bytes"],"random source and clock seams (source instrumentation at build, no change in /repo)")
p("P27","An account information query prints all the bank delivers",
 "When an account information query reports success, every account information segment the bank delivered on any page has been printed, unaltered, in order and each once; when a page cannot be obtained or holds no account information an error is returned and nothing of it is printed. Output that cannot be written is reported as an error.",
 H,"all account information segments (any optional parts, characters and amounts), pagings, account kinds and faults",
 "The only test of the query needs a real bank.",
 ["client/client.go","segment/account_information.go","segment/account_information_unmarshaler.go","message/unmarshaler.go"],[("account information query","client/client.go")],None,["standard output","client API results","decoded request bytes at the transport"])
p("P28","Only the answer to a message is taken as its answer",
 "When the network delivers something else in place of an answer - the answer to an earlier message of this or another dialog, delivered late or once more, or the request itself - the operation returns an error; what the other answer contains is neither reported as a result nor used for dialog IDs, system IDs, parameter data or continuation references. (The answers to the first messages of two dialogs name the same message and cannot be told apart.)",
 H,"all histories of operations, all earlier answers in place of any answer, lost or processed requests",
 "Tests deliver canned answers in order.",
 [DLG,"segment/message_header.go","element/message.go","transport/transport.go"],[("answers are matched to requests",DLG)],None,["client API results","decoded request bytes at the transport"])
p("P30","IBAN construction and validation",
 "An IBAN built from country, bank code and account number carries correct check digits, and validation accepts exactly the strings with correct check digits for the country.",
 ["inputs"],"all country codes, bank codes and account numbers",
 "Tests sample a few.",
 ["iban/iban.go"],[("check digit computation","iban/iban.go")])
p("P31","ISO 9796 encoding for RDH signatures",
 "The ISO 9796-1 encoding of a hash for RSA signing equals the standard's encoding for every hash value and key length.",
 ["inputs"],"all hashes and key lengths","Tests compare one vector.",
 ["crypto/iso9796_encoding.go"],[("encoding","crypto/iso9796_encoding.go")])
p("P32","Generated segment unmarshalers match the segment definition",
 "For every segment definition the generator accepts, the generated source compiles and reads each field from its wire position.",
 ["programs"],"all segment type definitions","Tests compare generated text for two samples.",
 ["generator/segment_unmarshaler.go"],[("templates","generator/segment_unmarshaler.go")])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
