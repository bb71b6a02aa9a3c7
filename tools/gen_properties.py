import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=obs or [],hook_needed=hook)))
M5=["rfc5424/machine.go","rfc5424/machine.go.rl","rfc5424/syslog_message.go","rfc5424/parser.go","common/common.rl","common/functions.go"]
M3=["rfc3164/machine.go","rfc3164/machine.go.rl","rfc3164/syslog_message.go","rfc3164/options.go","rfc3164/year.go","common/common.rl"]
p("P01","RFC5424 strict parsing accepts exactly the grammar and extracts every field",
 "In strict mode the RFC5424 parser accepts an input exactly when it is a well-formed RFC5424 message (priority 0-191, version 1-999, a real calendar timestamp with at most microseconds or '-', printable-ASCII header fields within their size limits 255/48/128/32, structured data with unique element ids, names of 1-32 characters and UTF-8 values escaping only '\"', '\\' and ']', then any bytes as message). For every accepted input the returned message carries precisely the values written in it: priority with derived facility and severity, version, the same instant and offset, each header field (absent for '-'), all structured data with escapes removed (the last value when a name repeats within an element), and the message bytes verbatim (absent when empty).",
 ["inputs","configurations"],"every byte string, whatever the length of the fields, the number of elements and parameters and the size of the message",
 "The table tests hold a few hundred inputs; the acceptor has ~620 states x 256 bytes, and extraction depends on marks set in one state and used in another, for every field length, escape placement and element count.",
 M5,[("Ragel finite state machine with marks and leaving actions","rfc5424/machine.go Parse"),("export of the parsed fields","rfc5424/syslog_message.go export"),("escape removal","common/functions.go RemoveBytes")],
 [("parse position / mark / escape positions","where the current field starts and which backslashes to drop","rfc5424/machine.go type machine")],["Parse result of NewMachine and NewParser"])
p("P02","RFC5424 rejections always report an error with the exact offending position",
 "For every input the strict RFC5424 parser terminates without panicking and returns either a message and no error, or no message and an error, never both or neither. The error names the part at fault (or is the generic parsing error where a complete part is not followed by its delimiter) and ends with the column of the first byte at which the input can no longer be continued to a well-formed message (the input length when it is merely truncated); for an impossible calendar date or a repeated element id, which are only judged when the field is complete, it is the column right after the field.",
 ["inputs"],"every byte string, in particular every truncation and every single-byte corruption of a well-formed message",
 "Only some rejected inputs are in the tables; some exits of the machine carry no error action, so silence (nil, nil) or a wrong column is invisible until the exact state/byte pair is hit.",
 M5,[("error actions and end-of-input actions","rfc5424/machine.go Parse"),("verdict after the machine stops","rfc5424/machine.go Parse tail")],None,["returned error text","returned message"])
p("P03","RFC5424 best effort returns exactly the fields completed before the error",
 "With best effort on, the RFC5424 parser gives the same verdict and the same error text as in strict mode for every input, and the same message when the input is well-formed. When it is malformed it still returns a message if and only if a valid priority and a version were read, and that message holds exactly the header fields, elements and parameters whose end had been recognised before the error position, with the values strict mode would have given them and nothing from the part in error or after it.",
 ["inputs","configurations"],"every malformed byte string: each grammar position the error can occur at, after every combination of completed fields",
 "Tests pin a few partial messages; whether a completed element or parameter survives depends on what preceded the error (which element, how many parameters, escapes), a space tests do not enumerate.",
 M5,[("best effort branch","rfc5424/machine.go Parse tail"),("error actions of structured data","rfc5424/machine.go.rl err_sdid err_sdparam"),("minimal / export","rfc5424/syslog_message.go")],[("current element / parameter / value","structured data being read","rfc5424/machine.go type machine")],["Parse result with WithBestEffort"])
p("P04","Compliant message mode: BOM-prefixed messages are UTF-8, the others are free",
 "With the compliant-message option the RFC5424 parser treats the header and structured data exactly as without it, and accepts a message part that starts with the UTF-8 byte order mark only if all that follows is valid UTF-8 (no overlong forms, surrogates or code points above U+10FFFF, nothing truncated), and any bytes at all when it does not start with the mark. The message is returned verbatim including the mark; on an encoding error the error gives the first offending offset and, in best effort mode, the message is the text before that offset.",
 ["inputs","configurations"],"every byte sequence in the message part, in particular every UTF-8 lead/continuation combination and every truncation point",
 "The tests try a handful of invalid sequences; correctness is about each of the 256 bytes in each UTF-8 automaton state.",
 M5+["rfc5424/options.go"],[("msg_compliant entry point and mode selection","rfc5424/machine.go select_msg_mode / msg_compliant"),("WithCompliantMsg option","rfc5424/options.go")],None,["Parse result with WithCompliantMsg"])
p("P05","Parse results depend on input and options only; returned messages never change",
 "Parsing the same bytes with the same options always gives the same message and error, for both RFC5424 and RFC3164, no matter which inputs the same parser instance was given before, in whichever order, and whether they succeeded or failed. Parsing never modifies the caller's buffer, and a message once returned keeps its value for ever: it is not affected by later parses, by the caller overwriting its buffer, or by changes made to other returned messages.",
 ["histories","inputs"],"every sequence of inputs given to one parser instance, ending each parse in any possible state",
 "Tests build a fresh parser per case, so no leftover state (marks, current element, escapes, errors) of a previous parse is ever exercised, nor is the aliasing of results.",
 ["rfc5424/machine.go","rfc3164/machine.go","rfc5424/syslog_message.go","rfc3164/syslog_message.go","rfc5424/parser.go","rfc3164/parser.go"],[("reset of the machine at the beginning of Parse","rfc5424/machine.go Parse, rfc3164/machine.go Parse"),("copies via string conversion","rfc5424/machine.go set_* actions")],[("machine fields surviving between calls","pb, msgat, backslashat, currentelem, currentparam, currentvalue, err, cs","rfc5424/machine.go type machine")],["results of successive Parse calls"])
p("P06","Concurrent parsing gives every caller the result of its own input",
 "When several goroutines call the mutex-protected parser (RFC5424 or RFC3164) on one shared instance, each call returns exactly what it would have returned alone, under every interleaving, and no call deadlocks or panics. The same holds for any number of independent parser instances of either kind, which share no state with each other, and for reading the results of earlier calls at the same time.",
 ["schedules","histories"],"every interleaving of 2-3 goroutines parsing different inputs, valid and invalid, on shared or independent instances",
 "No test starts a goroutine; interference needs a switch in the middle of one parse.",
 ["rfc5424/parser.go","rfc3164/parser.go","rfc5424/machine.go","rfc3164/machine.go"],[("mutex around Parse","rfc5424/parser.go Parse, rfc3164/parser.go Parse"),("absence of package-level mutable state","rfc5424/machine.go, rfc3164/machine.go, common/functions.go")],[("shared machine","all parse state, guarded by the mutex","rfc5424/parser.go type parser")],["Parse results of each goroutine"],"a scheduler point before every statement, inserted in a build overlay (no change in /repo)")
p("P07","RFC3164 parsing accepts exactly the grammar and extracts every field",
 "The RFC3164 parser accepts an input exactly when it is '<' priority 0-191 '>', a 'Mmm dd hh:mm:ss' timestamp that exists in the calendar (also an RFC3339 one when that option is on), a space, a hostname of 1-255 printable ASCII characters, a space and a non-empty text without control characters. The returned message carries exactly those values (a '-' or empty one is reported as absent); if the text starts with a tag of 1-32 printable characters (no space, ':' or '['), optionally followed by a process id in square brackets (up to the first closing one), then ': ' and some more text, the tag, the process id and the remaining text are split out, otherwise the whole text is the message and neither tag nor process id is reported.",
 ["inputs","configurations"],"every byte string, every tag and hostname length, with and without the RFC3339 option",
 "About a hundred table cases against a 370-state machine in which three alternatives of the message part run in parallel and share one mark.",
 M3,[("Ragel finite state machine","rfc3164/machine.go Parse"),("export of the parsed fields","rfc3164/syslog_message.go export")],None,["Parse result"])
p("P08","RFC3164 rejections and best effort: error, position and partial content",
 "For every input the RFC3164 parser terminates without panicking; when it rejects an input it always returns a non-nil error whose column is the first byte at which the input can no longer be continued to an acceptable message (the input length when truncated; right after the timestamp for an impossible date), and in strict mode no message. In best effort mode verdict and error are the same as in strict mode, and a rejected input yields a message if and only if its bracketed priority was complete and valid, holding exactly the priority, the timestamp and the hostname followed by their space, and the tag and process id followed by ': ' and text, that had been read before the error.",
 ["inputs","configurations"],"every malformed byte string: every truncation and every corruption at each grammar position",
 "The tests list some rejected inputs; some exits of the machine have no error action and used to return neither message nor error.",
 M3+["rfc3164/parser.go"],[("error actions","rfc3164/machine.go Parse"),("best effort branch","rfc3164/machine.go Parse tail")],None,["returned error text","returned message"])
p("P09","RFC3164 timestamps honour the year, locale, timezone and RFC3339 options",
 "The timestamp of an accepted RFC3164 message denotes the written month, day, hour, minute and second in the configured year (year 0 if none), interpreted as wall-clock time in the locale timezone if one is given (UTC otherwise; 29 February in a year without it is left unspecified), and is then presented in the requested timezone if one is given, denoting the same instant. With the RFC3339 option an RFC3339 timestamp keeps its own year, instant and offset whatever the other options, Stamp timestamps keep working, and without the option RFC3339 timestamps are rejected.",
 ["inputs","configurations"],"every calendar date and time of day, every year, every combination of the options, including zones with daylight saving time",
 "Tests try a few dates and zones; the product of days, years, offsets and option combinations is not sampled.",
 M3,[("set_timestamp and set_rfc3339 actions","rfc3164/machine.go Parse"),("year strategies","rfc3164/year.go"),("options","rfc3164/options.go")],[("year, locale and zone","configuration of the machine","rfc3164/machine.go type machine")],["Timestamp of the returned message"])
p("P10","Builder setters take exactly grammar-valid values and ignore all others",
 "For any sequence of setter calls on an RFC5424 message, each call with a value valid for that field sets exactly that field (for a parameter also creating its element, with escapes removed from the value), and each call with an invalid value leaves the field or parameter as it was; '-' for a header field and an empty text are ignored too. No setter ever changes another field or a value read from the message before, and the message reports itself valid exactly when a priority and a version have been set.",
 ["histories","inputs"],"every sequence of setter calls with every kind of valid and invalid argument, from an empty or already populated message",
 "Tests call setters a few times on fresh messages; interactions (invalid value over a valid one, several elements, repeated names) and the per-byte acceptance of nine setter machines are not enumerated.",
 ["rfc5424/builder.go","rfc5424/builder.go.rl","rfc5424/syslog_message.go","common/common.rl","common/functions.go"],[("setter machines with one entry point per field","rfc5424/builder.go set / translate"),("parameter setter","rfc5424/builder.go SetParameter"),("validity","rfc5424/syslog_message.go Valid, common/functions.go ValidPriority ValidVersion")],[("message under construction","fields and structured data maps","rfc5424/syslog_message.go SyslogMessage")],["exported fields, Valid"])
p("P11","A valid message renders deterministically and parses back to itself",
 "Rendering an RFC5424 message to text fails exactly when it is not valid, never alters it and always gives the same text for the same content: header fields in order with '-' for absent ones, elements and parameters sorted by name, values escaped. Parsing that text in strict mode succeeds and yields the same priority, version, instant, header fields, structured data and message, whether the message came from the builder or from the parser.",
 ["inputs","histories"],"every valid message: all combinations of present and absent fields, any element and parameter sets, any UTF-8 value including characters to be escaped",
 "Tests render a handful of ASCII messages; multi-byte values, escape placement and element/parameter combinations are not covered.",
 ["rfc5424/builder.go","rfc5424/builder.go.rl","common/functions.go","rfc5424/machine.go"],[("rendering","rfc5424/builder.go String"),("value escaping","common/functions.go EscapeBytes")],None,["String, then Parse of its output"])
p("P12","Building or rendering messages concurrently never mixes them up",
 "Goroutines that each build, validate and render their own RFC5424 message obtain, under every interleaving, exactly the message they would have obtained alone, with no panic. Read-only use of one shared message by several goroutines (rendering, validity, labels) gives each the same result as when used alone.",
 ["schedules"],"every interleaving of 2-3 goroutines running setter sequences on distinct messages or rendering a shared one",
 "No test starts a goroutine; interference needs a switch between two steps of one setter.",
 ["rfc5424/builder.go","rfc5424/builder.go.rl","common/functions.go","syslog.go"],[("no shared builder state","rfc5424/builder.go set, SetParameter")],[("element and parameter being set","must be private to the call","rfc5424/builder.go SetParameter")],["each goroutine's message and rendering"],"a scheduler point before every statement, inserted in a build overlay (no change in /repo)")
p("P13","Priority determines facility, severity and their standard labels",
 "For every priority value set on, or parsed into, a message, facility is the priority divided by 8 and severity the remainder, and the facility and severity messages, levels and short levels are the standard ones for those codes (nothing when no priority is present; the keyword of the facility as its level). Asking for labels never changes the message, and changing what one message returned does not affect any other message.",
 ["inputs","histories"],"all 256 byte values of a priority, both formats, every label accessor, in any order",
 "The tests look at a few codes of the tables.",
 ["syslog.go","common/facility.go","common/severity.go"],[("ComputeFromPriority and label accessors","syslog.go"),("label tables","common/facility.go, common/severity.go")],None,["label accessors"])
p("P14","Octet-counted streams yield one result per frame, in order, however chunked",
 "For a stream of 'LENGTH SP MESSAGE' frames with each length matching its message and within the maximum, the parser delivers exactly one result per frame, in order, each equal to parsing those exact bytes alone with a parser of the same mode, and nothing else; in strict mode it stops right after the first frame whose message is malformed, in best effort mode it goes on. The results do not depend on how the reader splits the bytes into reads, nor on what the messages contain (newlines, digits, NUL bytes, text looking like frames).",
 ["inputs","schedules","configurations"],"every sequence of frames, every split of the byte stream into reads, every maximum length, including frames of exactly the maximum length",
 "Tests feed whole strings at once, so buffer boundaries, short reads and frame-size combinations are not explored.",
 ["octetcounting/parser.go","octetcounting/scanner.go","octetcounting/tokens.go","options.go"],[("token loop","octetcounting/parser.go run"),("buffered scanner","octetcounting/scanner.go scanMsgLen, scanSyslogMsg")],[("declared length / ready flag / buffered reader","scanner state across tokens and frames","octetcounting/scanner.go Scanner")],["listener calls"])
p("P15","Broken octet-counted streams are reported once, and never misread",
 "When the stream departs from the framing - a byte that is not the start of a length where a length must start, a length not followed by a space, a length above the maximum, a message not starting with '<', an end of stream or read failure inside a frame - the parser delivers all results of the preceding frames, then exactly one result with an error, and stops. Only in best effort mode that last result may also carry the partial content of a truncated message, which is then parsed from exactly the bytes available; an over-long frame is never parsed, a clean end between frames gives no error, and an empty stream gives one.",
 ["inputs","fault_sequences","configurations"],"every point of departure in every frame of a stream, every truncation point, a read failure at every position, every declared length",
 "Tests have about twenty fixed streams; truncation and failure at each byte offset, and lengths around the limits, are not covered.",
 ["octetcounting/parser.go","octetcounting/scanner.go"],[("framing checks","octetcounting/parser.go run"),("length limit","octetcounting/parser.go run, octetcounting/scanner.go NewScanner"),("underflow handling in best effort","octetcounting/parser.go run")],None,["listener calls"])
p("P16","Non-transparent streams are cut exactly at trailers that precede a message start",
 "For a stream whose every line ends with the configured trailer (LF or NUL), the parser delivers one result per message, in order, where a message extends from a line starting with '<' up to the trailer preceding the next line that starts with '<' or the end of the stream, keeping inner trailers and dropping only the final one; lines before the first such line form one message of their own, reported as an error. Each result equals parsing those exact bytes alone in the same mode, a malformed message never hides the following ones, and the results do not depend on how the reader splits the bytes into reads.",
 ["inputs","schedules","configurations"],"every sequence of lines, both trailers, both modes, every split of the byte stream into reads",
 "Tests feed a few streams through one-shot readers; multi-line messages, the other trailer inside messages and buffer windows are barely combined.",
 ["nontransparent/parser.go","nontransparent/parser.go.rl","nontransparent/trailer_type.go"],[("framing machine","nontransparent/parser.go Exec"),("candidate accumulation and flush","nontransparent/parser.go process, OnCompletion")],[("candidate","bytes of the message being assembled","nontransparent/parser.go type machine")],["listener calls"])
p("P17","Non-transparent streams cut short or failing still report what was received",
 "If a non-transparent stream ends or its reader fails in the middle of a line, the messages completed before are delivered unchanged, the pending message is delivered as it stands at its last trailer, and the incomplete line is delivered last as one result of its own, parsed from exactly the bytes received, with an error in every case (its parse error, or else one describing the interruption). A stream that ends right after a trailer, or is empty, produces no such extra result, and the parser always returns.",
 ["fault_sequences","inputs","configurations"],"every truncation offset of every stream, a read failure at every offset, with every split into reads, both trailers, both modes",
 "Tests have a few unterminated streams, always read in one go and never with a failing reader in the middle.",
 ["nontransparent/parser.go","nontransparent/parser.go.rl"],[("OnErr and OnCompletion callbacks","nontransparent/parser.go")],[("last chunk and read error","what was received without trailer","nontransparent/parser.go type machine")],["listener calls"])
p("P18","A stream parser can be reused; delivered results never change afterwards",
 "Using one octet-counting or non-transparent parser instance on several streams, one after the other, gives for each stream exactly the results a new parser would give, whatever happened on the previous ones (clean end, malformed message, truncation, read failure, a reader or a listener that has panicked). Results already handed to the listener keep their value for ever, whatever is parsed later and whatever happens to the reader's buffers.",
 ["histories","inputs","fault_sequences"],"every sequence of streams, each ending in any possible way, on one parser instance",
 "Tests create a new parser per stream and look at the results at the end only.",
 ["octetcounting/parser.go","nontransparent/parser.go","rfc5424/machine.go"],[("reset at the beginning of Parse","octetcounting/parser.go Parse, nontransparent/parser.go Parse")],[("scanner, pushed back token, candidate, last chunk","state left by the previous stream","octetcounting/parser.go type parser, nontransparent/parser.go type machine")],["listener calls across Parse calls"])
p("P19","Stream results are delivered as soon as their frame is known to be complete",
 "The octet-counting parser hands each result to the listener before asking the reader for anything beyond the bytes of that frame, and the non-transparent one hands each message over before asking for anything beyond the line that starts the next message. Results are delivered synchronously, one at a time, in the goroutine that called the parser, and all of them before it returns.",
 ["schedules","inputs"],"every stream and every read granularity, observing at each read which results have already been delivered",
 "Tests only look at the results once parsing has finished, so a result held back until more input or the end of the stream is not noticed.",
 ["octetcounting/parser.go","octetcounting/scanner.go","nontransparent/parser.go"],[("emit right after parsing the frame","octetcounting/parser.go run"),("flush when the next message starts","nontransparent/parser.go Exec")],None,["interleaving of Read calls and listener calls"])
p("P20","Options take effect in any order and only on the instance they are given to",
 "Any set of options given to any of the parsers has the same effect in whatever order they are listed, an option that is not given leaves its documented default (strict mode, LF trailer, 8192 bytes maximum, no year or zone), and whether best effort is on can be queried truthfully. Parsers created with different options, even interleaved, never influence each other, and the plain and mutex-protected parsers behave identically.",
 ["configurations","histories"],"every subset and permutation of the options of each parser, and several differently configured instances alive at once",
 "Tests pass one or two options in one order to one parser at a time.",
 ["options.go","rfc5424/options.go","rfc3164/options.go","rfc5424/parser.go","rfc3164/parser.go","octetcounting/parser.go","nontransparent/parser.go"],[("option application in the constructors","NewMachine / NewParser of each package")],None,["behaviour of each constructed parser on probe inputs"])
p("P21","Trailer types convert to and from text consistently",
 "Decoding a trailer type from text accepts exactly 'LF' and 'NUL' in any letter case, bare or wrapped in a matching pair of single or double quotes, and fails for everything else; encoding yields the canonical name for the two known types and fails otherwise. Decoding what was encoded gives back the same type, the byte value of a type is 10 for LF and 0 for NUL (an error otherwise), and an unknown type passed as option leaves the default trailer in force.",
 ["inputs"],"every string up to a length over the relevant alphabet, and every integer value around the valid ones",
 "Tests check a few spellings.",
 ["nontransparent/trailer_type.go","nontransparent/parser.go"],[("text conversions","nontransparent/trailer_type.go"),("WithTrailer","nontransparent/parser.go")],None,["return values"])
p("P22","Stream parsers in use at the same time never influence each other",
 "Any number of octet-counting and non-transparent parsers deliver each, for its own stream, exactly the results it would deliver alone: under every interleaving of goroutines that each use their own parser, and when one parser, or any other part of the library, is used from within the reader or the listener of another. No interleaving panics or deadlocks, and results delivered by one parser are not changed by what others do.",
 ["schedules","inputs"],"every interleaving of 2-3 goroutines each running its own stream parser, every order of the reads of two parsers, and every read and listener call as the moment at which another parser is used",
 "No test has two stream parsers at work at once; a buffer, scanner or machine shared behind the scenes only shows when one parser is switched in the middle of a frame.",
 ["octetcounting/parser.go","octetcounting/scanner.go","nontransparent/parser.go","rfc5424/machine.go","common/functions.go"],[("state per instance only","octetcounting/parser.go parser, octetcounting/scanner.go Scanner, nontransparent/parser.go machine"),("no package-level mutable state","octetcounting, nontransparent, rfc5424, common")],[("scanner, candidate, internal RFC5424 machine","state of one stream","octetcounting/parser.go type parser, nontransparent/parser.go type machine")],["listener calls of each parser"],"a scheduler point before every statement, inserted in a build overlay (no change in /repo)")
p("P23","Escaping and unescaping helpers are exact inverses and leave arguments alone",
 "For every value, escaping puts one backslash before each '\"', '\\' and ']' and changes nothing else; removing the bytes at given increasing positions (relative to an offset) from a byte slice returns a new slice with exactly the other bytes and leaves the original, also beyond its length, as it was; so removing the backslashes that escaping has put in gives back the value. Decimal digits convert to the number they denote, and a priority is valid exactly from 0 to 191, a version exactly from 1 to 999.",
 ["inputs"],"every byte string and every set of positions, whatever the length, the capacity of the slice and the number of escapes",
 "Tests escape a handful of ASCII strings and remove bytes from a few slices.",
 ["common/functions.go"],[("EscapeBytes","common/functions.go EscapeBytes"),("RemoveBytes","common/functions.go RemoveBytes"),("number conversion and range predicates","common/functions.go UnsafeUTF8DecimalCodePointsToInt, ValidPriority, ValidVersion, InBetween")],None,["return values, the argument slice"])
p("P24","A machine always tells the error of its latest parse",
 "The Err method of a machine or mutex-protected parser, RFC5424 or RFC3164, in any mode, gives nil before the first parse, and after each parse exactly the error that parse has returned (nil when the input was accepted), whatever was parsed before, however often it is asked. Asking changes neither the machine nor the message.",
 ["histories","configurations"],"every sequence of accepted and rejected inputs, ending each parse in any state and on any byte",
 "No test asks for the error of a machine after a sequence of parses; an error left over from an earlier parse, or one returned without being recorded, goes unnoticed.",
 ["rfc5424/machine.go","rfc3164/machine.go","rfc5424/parser.go","rfc3164/parser.go"],[("error recorded by the error actions and reset by Parse","rfc5424/machine.go Parse, rfc3164/machine.go Parse"),("accessor","rfc5424/machine.go Err, rfc3164/machine.go Err")],[("err","error of the latest parse","machine structs")],["Err after each Parse"])
p("P25","Messages built, rendered and sent over any framing arrive as they were built",
 "Any sequence of valid messages made with the builder, rendered with String and sent with octet counting, or with LF or NUL trailers when no text contains the trailer followed by '<', is received as exactly that sequence: one result per message, without error, in strict and best effort mode alike, with the priority, version, instant, header fields, structured data and text that were set, and rendering what was received gives the text that was sent.",
 ["inputs","histories","schedules"],"every sequence of messages, with any bytes in the texts and values, of any size, however the stream is split into reads",
 "No test goes from the builder to the listener; an error that building, rendering, framing and parsing share, or that only shows in their combination, is missed by tests of each part.",
 ["rfc5424/builder.go","rfc5424/machine.go","octetcounting/parser.go","octetcounting/scanner.go","nontransparent/parser.go","common/functions.go"],[("setters and rendering","rfc5424/builder.go"),("framing","octetcounting/parser.go run, nontransparent/parser.go Exec"),("parsing of each message","rfc5424/machine.go Parse")],None,["listener calls compared with what was built"])
p("P26","The octet-counting scanner splits every stream into the right tokens",
 "The exported scanner turns a stream into tokens that account for every byte in order until the end: a maximal run of digits not starting with 0 is a length, a space is a space token, a '<' that comes after a length and, since that length, a space (not used by a message yet) starts a message of exactly that many octets, any other byte is illegal; when nothing is left, or less than a whole message is, the token is EOF, and stays so at the end of the stream. This does not depend on how the stream is split into reads. The text of a token is its type's name followed by its content in parentheses (the name only for spaces and the end), and an unknown type is written TokenType(n).",
 ["inputs","schedules"],"every byte string, every split into reads, every maximum at least as large as the messages",
 "Tests of the package only go through the parser, which stops at the first unexpected token; the scanner's own table tests hold no stream.",
 ["octetcounting/scanner.go","octetcounting/tokens.go"],[("lexer","octetcounting/scanner.go Scan, scanMsgLen, scanSyslogMsg"),("token texts","octetcounting/tokens.go String")],[("msglen, ready","pending length and whether a space has followed it","octetcounting/scanner.go Scanner")],["tokens returned by Scan"])
p("P27","No input, option or reader makes the library panic, hang or answer nothing",
 "Whatever bytes are parsed, whatever stream is given to a stream parser (cut short, failing, delivered in any pieces, by a reader that has nothing to give for ever or fails now and then), whatever values the setters, the numeric, zone, year, trailer and maximum options receive, no call panics or runs for ever; each parse gives a message or an error, each result holds at least one of them, the number of results is bounded by the size of the stream, every message and error given out can be rendered, validated, asked for its labels and built upon, and a message whose fields were set by hand to any values can be rendered, validated and asked for its labels.",
 ["inputs","configurations","fault_sequences"],"every byte string of any size, every reader behaviour, every option value",
 "A crash needs one particular state, byte, size or option value; tests reach a few.",
 ["rfc5424/machine.go","rfc3164/machine.go","rfc5424/builder.go","syslog.go","common/functions.go","octetcounting/parser.go","octetcounting/scanner.go","nontransparent/parser.go","nontransparent/trailer_type.go"],[("state machines","Parse of both formats"),("stream parsers","octetcounting/parser.go run, nontransparent/parser.go Exec"),("rendering and labels","rfc5424/builder.go String, syslog.go")],None,["every exported call"])
p("P28","The cost of parsing, building and rendering is proportional to the size",
 "The time taken to parse a message or a stream, to set a field or a parameter, and to render a message grows in proportion to the size of the input, apart from the logarithmic factor of sorting, whatever the input is made of: many escapes, parameters, elements, frames, lines or digits, large values and texts, accepted or not. In particular no input of a few megabytes keeps a parser, the builder or the rendering busy for more than a moment.",
 ["inputs"],"every input that repeats a part any number of times: each loop of the grammars, frames, lines, setter calls",
 "Inputs in tests are short; a cost that grows with the square of the size only shows on large ones made of the right pieces.",
 ["common/functions.go","rfc5424/builder.go","rfc5424/machine.go","rfc3164/machine.go","octetcounting/scanner.go","nontransparent/parser.go"],[("escaping and removal of escapes","common/functions.go EscapeBytes RemoveBytes"),("rendering of structured data","rfc5424/builder.go String"),("buffering","octetcounting/scanner.go scanLargeSyslogMsg, nontransparent/parser.go Exec")],None,["time taken by each call"])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
