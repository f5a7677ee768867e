#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table; a property is claimed when rules/ has a rule for it."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "engine"), HERE]
import rules  # noqa: E402

P = []


def p(id, title, statement, over, quant, why, files, mech, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, note=note, na=na))


p("P01", "No client input can panic the server",
  "No sequence of bytes, read errors or disconnects on a connection makes request reading, parsing, routing, query and cookie decoding or response writing panic. Every malformed input ends in an error response or a closed connection, never in an aborted task.",
  ["inputs", "fault_sequences"], "every byte sequence and every read/write result on a connection",
  "the tests feed a handful of well-formed and slightly malformed requests; a panic hides behind one particular length, offset or escape",
  ["src/server.rs", "src/request.rs", "src/http/mod.rs", "src/query.rs", "src/cookie.rs", "src/path.rs", "src/util.rs", "octane_http/src/http1x/mod.rs"],
  [("slice bounds, unwraps and arithmetic on request data", "every function reachable from the connection handler")])
p("P02", "Every connection gets exactly one response, on its own stream",
  "Each accepted connection that is served is answered exactly once: one status line and headers, then the body, written to that connection and to no other. Nothing more is written after the body, and serving fails only if writing the response failed.",
  ["inputs", "fault_sequences"], "every path through the handling of a connection, including each validation failure and each I/O error",
  "tests read one response on the success path; they never look at the failing paths or at what follows the body",
  ["src/server.rs", "src/error.rs", "src/responder.rs"],
  [("connection handler", "server::Octane::serve"), ("response writer", "server::Octane::send")])
p("P03", "Invalid requests are refused with the right status and reach no handler",
  "Handlers run only for requests whose head could be read, whose request line, headers and declared body are well formed, whose method is supported and which, in HTTP/1.1, carry a Host header. An unreadable or malformed request or a missing Host is answered 400 and an unsupported method 501; a request is refused for no other reason.",
  ["inputs", "configurations"], "every request and every combination of failed validation stages, in strict and lenient builds",
  "tests send single malformed requests; they cannot show that no other path reaches the handlers or refuses a valid request",
  ["src/server.rs", "src/http/mod.rs", "src/http/http11.rs", "src/error.rs"],
  [("validation stages before dispatch", "server::Octane::serve"), ("Host check", "http::Http::validate")])
p("P04", "404 exactly when no handler produced a body",
  "Each request is given to the router once, with a fresh 200 response that has no headers, cookies or body. If afterwards the response has a body it is sent exactly as the handlers left it; otherwise the client gets 404.",
  ["inputs", "programs"], "every request and every set of handlers",
  "tests use a few fixed handlers; the property is about what the server does to whatever response any handlers build",
  ["src/server.rs", "src/responder.rs"],
  [("dispatch and 404 fallback", "server::Octane::serve")])
p("P05", "Every response is a well-formed HTTP/1 message",
  "A response is serialised as 'HTTP/<version> <code> <reason>' CRLF, then one 'name: value' CRLF line for each header and one Set-Cookie line for each cookie of that response, then one blank line, then the bytes of that response's own body. No header, cookie or body byte is lost, repeated or taken from elsewhere.",
  ["inputs", "programs"], "every response value handlers can build",
  "tests compare one or two rendered responses",
  ["src/responder.rs", "src/cookie.rs"],
  [("serialiser", "responder::Response::get_data"), ("cookie lines", "cookie::Cookie::serialise")])
p("P06", "Content-Length equals the number of body bytes sent",
  "For text or bytes sent by a handler, for a file and for every generated error page, the Content-Length header of the response states exactly the number of body bytes that follow. A failed attempt to send a file leaves the response as it was.",
  ["inputs"], "every body, file and error status",
  "tests check a fixed short body",
  ["src/responder.rs", "src/error.rs", "src/file_handler.rs"],
  [("length header", "responder::Response::send, send_file, error::Error::err")])
p("P07", "The request body is exactly the declared bytes",
  "A handler sees as body exactly the Content-Length bytes that follow the request head, no matter how many of them arrived together with the head, and an empty body if no length was declared. A Content-Length that is not a number, and a body that ends early or cannot be read, get the request refused.",
  ["inputs", "schedules", "fault_sequences"], "every split of the body over reads, every declared length, every point at which the peer stops sending",
  "tests send the whole request in one piece",
  ["src/request.rs", "src/server.rs"],
  [("body reader", "request::Request::from_raw")])
p("P08", "No memory is reserved for lengths a client merely claims",
  "While a request is read and parsed, no buffer is allocated whose size is a number the client states, such as its Content-Length: memory grows only with the bytes actually received.",
  ["inputs"], "every request, in particular every declared length",
  "a huge declared length is not in any test, and would end the process rather than fail an assertion",
  ["src/request.rs", "octane_http/src/http1x/mod.rs", "src/query.rs", "src/cookie.rs"],
  [("allocation sites on the request path", "request::Request::from_raw, http1x::Http1xReader::new")])
p("P09", "How a request head is split into packets does not matter",
  "The request head ends at the first blank line in everything received so far, wherever the pieces were split; all received bytes are kept, the first line is the request line, the remaining lines are the headers, and the bytes after the blank line belong to the body. Reading goes on until the blank line arrives and stops with a refusal when the connection ends or fails first.",
  ["inputs", "schedules"], "every segmentation of the incoming bytes and every point of disconnection",
  "tests deliver the head in one segment",
  ["octane_http/src/http1x/mod.rs", "src/server.rs"],
  [("head reader", "http1x::Http1xReader::new"), ("search for the blank line", "http1x::find_in_slice")])
p("P10", "Header fields are all kept, under case-insensitive names",
  "Every header line is split at its first colon, the value without surrounding blanks; all lines of a request are taken in order and none is lost. Values are stored under the lower-cased name, and repeated headers are combined in order, separated by a comma and a blank.",
  ["inputs"], "every header block",
  "tests parse a few fixed header blocks",
  ["src/request.rs", "src/util.rs"],
  [("header line parser", "request::Header::parse"), ("header block parser", "request::Headers::parse"), ("lookup", "request::Headers::get"), ("line splitter", "util::Spliterator::next")])
p("P11", "Header lines with illegal characters are rejected in strict builds",
  "In strict builds a header is accepted only if its name consists of HTTP token characters and its value, without surrounding blanks and tabs, contains no control character; any other header makes the request invalid. The accepted name characters are exactly letters, digits and !#$%&'*+-.^_`|~.",
  ["inputs", "configurations"], "every header name and value, every character",
  "tests try a few characters",
  ["src/request.rs", "src/util.rs", "src/constants.rs"],
  [("strict header check", "request::Header::parse"), ("token set", "constants::TOKEN_CHARS"), ("control characters", "util / request::is_ctl")])
p("P12", "The request line is split into method, target and version faithfully",
  "A request line is split at single blanks into method, target and version; the method and the version are recognised only if they match exactly, and the query is everything after the first question mark of the target while the path is everything before it. In strict builds a version without the HTTP/ prefix and any fourth part are rejected; lines with fewer than three parts are always rejected.",
  ["inputs", "configurations"], "every request line",
  "tests parse a few request lines",
  ["src/request.rs"],
  [("request line parser", "request::RequestLine::parse")])
p("P13", "Request paths are normalised and never climb above the root",
  "A request path is cut at slashes; empty and '.' segments vanish, '..' removes the segment before it, and a '..' with nothing before it makes the path invalid. Every other segment is kept unchanged and in order, so no normalised path contains '..'.",
  ["inputs"], "every path",
  "tests try a handful of paths",
  ["src/path.rs"],
  [("path normaliser", "path::PathBuf::parse")])
p("P14", "A route matches exactly the paths its pattern describes",
  "In builds with URL variables, a registered pattern matches a request path only if both have the same number of segments and each pattern segment is equal to the request's or is a ':name' variable; every pattern that matches is found. Each variable of the matched pattern is bound to the request's segment at its own position.",
  ["inputs", "programs"], "every set of registered patterns and every request path",
  "tests register a few patterns and request a few paths",
  ["src/path.rs"],
  [("route tree lookup", "path::PathNode::get"), ("insertion", "path::PathNode::insert"), ("variable binding", "path::PathBuf::check_matches")])
p("P15", "Handlers run in registration order until one stops",
  "For a request, the handlers that run are those registered for its method and matching path, those registered for all methods with a matching path, and all middlewares, in the order they were registered. Each runs at most once with the variables of its own pattern, and as soon as one stops or fails no further handler runs.",
  ["inputs", "programs"], "every combination of registered handlers and requests",
  "tests check a few fixed chains",
  ["src/router.rs"],
  [("handler chain", "router::Router::run")])
p("P16", "Each registration is stored once, under its own method and path",
  "Registering a handler for a method stores exactly that handler under exactly that method and the given path, leaving every earlier registration in place, and gives it a later position than everything registered before. Registering on the application is the same as registering on its router.",
  ["programs"], "every sequence of registrations",
  "tests register a few handlers for a few methods",
  ["src/router.rs", "src/server.rs"],
  [("registration", "router::Route for router::Router"), ("delegation", "router::Route for server::Octane")])
p("P17", "Mounting a router keeps all of its handlers and their order",
  "Appending a router to another adds every route and middleware of the appended router, under the same method and path, after everything already registered and in unchanged relative order; nothing of the receiving router is lost. Handlers registered afterwards come later than the appended ones.",
  ["programs"], "every pair of routers",
  "tests append one small router",
  ["src/router.rs", "src/path.rs"],
  [("append", "router::Router::append"), ("tree merge", "path::PathNode::extend")])
p("P18", "Query strings are decoded into every key and value they contain",
  "A query is cut at every '&' and each piece at its first '='; both sides are percent-decoded and the pair is stored, a piece without '=' with an empty value (strict builds ignore empty pieces and pieces with an empty name); pieces are taken in order, so the last value of a repeated key wins. The query a handler sees is the one of its own request target.",
  ["inputs"], "every query string",
  "tests decode a few query strings",
  ["src/query.rs", "src/request.rs"],
  [("query decoder", "query::parse_query")])
p("P19", "Percent-decoding is exact and lossless for malformed escapes",
  "'%' followed by two hexadecimal digits of either case is decoded to the byte they denote, decoded bytes being read together as UTF-8; every other character, including an incomplete or malformed escape, is kept unchanged and in order.",
  ["inputs"], "every string",
  "tests decode a few strings",
  ["src/query.rs", "src/util.rs"],
  [("decoder", "query::unescape_hex"), ("hex digits", "query::from_hex"), ("lookahead", "util::DoublePeek")])
p("P20", "Every well-formed cookie of a request is available, malformed ones skipped",
  "The Cookie header of a request is cut at '; ' and every piece that is a valid cookie is made available in order, while malformed pieces are skipped without affecting the others or refusing the request. Without a Cookie header there are no cookies.",
  ["inputs"], "every Cookie header",
  "tests parse one header",
  ["src/cookie.rs", "src/request.rs"],
  [("cookie header parser", "cookie::Cookie::parse")])
p("P21", "One bad connection never stops the server from accepting others",
  "The accept loop starts one task per accepted connection, never waits for a connection it has accepted, and goes on after failed accepts; a failing or slow connection affects no other. The server stops accepting only when its listener ends.",
  ["schedules", "fault_sequences"], "every sequence of accepted, failed and slow connections",
  "tests make a few successful connections",
  ["src/server_builder.rs", "src/server.rs"],
  [("accept loop", "server_builder::ServerBuilder::listen, listen_ssl")])
p("P22", "Requests cannot change state that other requests see",
  "While requests are being served the application's routes and settings are only read: nothing reachable from the server can be modified through a shared reference, and there is no mutable global state. So no request can influence the answer to another one except through what handlers themselves share.",
  ["schedules", "histories"], "every interleaving and history of requests",
  "no test runs requests concurrently",
  ["src/server.rs", "src/router.rs", "src/path.rs", "src/config.rs"],
  [("shared server", "server::Octane behind Arc")])
p("P23", "TLS connections use the configured key and are served only after the handshake",
  "With TLS enabled, the acceptor is built from the configured private key and certificate chain, unreadable or missing ones are reported instead of served without, and a connection is handed to request handling only when its handshake succeeded, over the encrypted stream. The TLS listener uses the configured TLS port and the same application.",
  ["configurations", "fault_sequences"], "every TLS setting and every handshake outcome, for both TLS back ends",
  "the tests do not make TLS connections",
  ["src/tls/rustls.rs", "src/tls/openssl.rs", "src/server_builder.rs", "src/server.rs"],
  [("acceptor", "tls::rustls::acceptor, tls::openssl::acceptor"), ("TLS accept", "server_builder::ServerBuilder::listen_ssl")])
p("P24", "Each status has its registered number and a reason phrase",
  "Every status a handler or the server can choose is sent with the numeric code registered for it in HTTP, no two statuses share a code, and the reason phrase is that status's own, apart from the case of its letters. A custom status is sent with the code and phrase it was made with.",
  ["inputs"], "every status",
  "tests look at a few statuses",
  ["octane_http/src/lib.rs", "octane_macros/src/status.rs"],
  [("status table", "StatusCode::fetch, made by the status_codes macro")])
p("P25", "HTTP version names are read and written consistently",
  "The versions 0.9, 1.0, 1.1 and 2.0 in a request line are each recognised as themselves and written back as the same text; anything else is treated as an invalid version and never as a known one. Responses state version 1.1 unless the handler chose another.",
  ["inputs"], "every version text",
  "tests parse one or two versions",
  ["src/request.rs", "octane_http/src/lib.rs"],
  [("version names", "HttpVersion::to_string, request::RequestLine::parse")])
p("P26", "File extensions map to their registered media types",
  "Each known file extension is served with its registered media type, in whatever case it is written, the extension being the one of the file's own name; an unknown or missing extension gets text/plain, and a type is never taken from another extension.",
  ["inputs"], "every file name",
  "tests look up a few extensions",
  ["src/file_handler.rs"],
  [("media types", "file_handler::FileHandler::mime_type, handle_file")])
p("P27", "Sending a file sends that file or reports an error",
  "Sending a file opens exactly the path the handler named, succeeds only for a regular file, and makes that file's content the body with the type of its extension. If the file is missing, unreadable or not a regular file the call reports an error and the response is unchanged.",
  ["inputs", "fault_sequences"], "every path and every file system result",
  "tests send one existing file",
  ["src/responder.rs", "src/file_handler.rs", "src/util.rs"],
  [("file responses", "responder::Response::send_file"), ("file reader", "util::AsyncReader::poll_read")])
p("P28", "Response builder calls change exactly what they name",
  "Setting a header, status, type, charset, redirect, attachment or cookie changes exactly that part of the response, and the last setting of a header wins. A new response has status 200 and no headers, charset or cookies. The automatic headers are only Content-Length, Date and Content-Type, and a Content-Type chosen by the handler is kept unless a file is sent, whose own type it then becomes; the default is text/html with the charset that was set.",
  ["programs"], "every sequence of builder calls",
  "tests make single calls",
  ["src/responder.rs"],
  [("response builder", "responder::Response"), ("automatic headers", "responder::Response::default_headers")])
p("P29", "The Date header has the HTTP date form and the right names",
  "Dates are written as 'Wdy, DD Mon YYYY HH:MM:SS GMT' with two-digit day, hour, minute and second; weekdays and months have their own three-letter names in calendar order. The day, month, year and time shown are the ones that were computed, each in its own place, and a clock before 1970 leaves the header out.",
  ["inputs"], "every moment in time",
  "tests format a few moments",
  ["src/time.rs", "src/responder.rs"],
  [("date text", "time::Time::format"), ("clock", "time::Time::now")])
p("P30", "Settings take effect where they are used, and only there",
  "Every setting of the application (TLS key, certificate and port, keep-alive) is stored unchanged where the server reads it and changes no other setting. The server listens on exactly the port it was given, on every interface, without blocking the runtime.",
  ["configurations"], "every combination of settings",
  "tests use one configuration",
  ["src/config.rs", "src/server.rs", "src/server_builder.rs"],
  [("settings", "config::Config, config::Ssl"), ("socket setup", "server_builder::ServerBuilder::new")])
p("P31", "Route macros make handlers that run the code as written",
  "A handler made with route!, route_next! or route_stop! runs exactly the code the user wrote, once per call, with the request and response it was called with, and owns what that code captures. route! continues or stops as the code's value says; route_next! lets later handlers run and route_stop! lets none run, unless the code itself returns a Flow early.",
  ["programs"], "every handler written with the macros",
  "tests use the macros in a few forms and look at a response, not at the code the macros produce",
  ["src/router.rs", "src/lib.rs"],
  [("handler macros", "route!, route_next!, route_stop! in src/router.rs")])
p("P32", "Entry-point macros run the async function to completion on a runtime",
  "A function marked #[octane::main] or #[octane::test] becomes an ordinary function (for test: one the test harness runs) with the same name, parameters, attributes and return type, that runs its whole body to completion on a tokio runtime with network I/O enabled, multi-threaded for main, and returns its result. A function that is not async is rejected at compile time.",
  ["programs"], "every function the macros are put on (signatures without a bare block in them)",
  "the tests contain one or two such functions, and a test whose body is never run passes",
  ["octane_macros/src/lib.rs", "octane_macros/src/stream_parser.rs"],
  [("entry-point macros", "octane_macros::main, octane_macros::test"), ("token splitter", "stream_parser::StreamParser::parse")])
p("P33", "The Date header shows the current civil date and time",
  "For every clock reading from 1970 through the year 9999, the year, month, day, weekday, hour, minute and second in the Date header are those of the Gregorian calendar in UTC for that number of seconds since 1970, including every leap year and century rule.",
  ["inputs"], "every number of seconds since 1970 up to the end of the year 9999",
  "tests convert a few dates",
  ["src/time.rs"], [("calendar arithmetic", "time::Time::time")])
p("P34", "Every request is answered within bounded time",
  "A connection that is slow, idle or sends an endless head does not hold its task and memory forever: the server gives up after its configured time or size limit.",
  ["schedules", "inputs"], "every peer behaviour over time",
  "tests have no slow clients",
  ["src/server.rs", "src/server_builder.rs", "octane_http/src/http1x/mod.rs"], [("none: there is no time or size limit in the code", "server::Octane::serve")],
  na="The code has no such limit (no timeout around reading, no bound on the head), so there is nothing to protect; and elapsed time is a runtime quantity no static argument over this source can bound.")
p("P35", "TLS sessions are confidential and authenticated",
  "What is exchanged on a TLS connection cannot be read or altered by a third party and the client can authenticate the server.",
  ["fault_sequences", "configurations"], "every attacker",
  "the tests make no TLS connections",
  ["src/tls/rustls.rs", "src/tls/openssl.rs"], [("the TLS libraries", "rustls, openssl")],
  na="The guarantee is the TLS libraries', whose source is not part of this repository; what this repository contributes (key, certificate, handshake before serving) is P23.")
p("P36", "Structured bodies round-trip through the JSON support",
  "A value a handler sends as JSON is parsed by the client into an equal value, and a JSON request body is turned into the value it denotes or reported as an error.",
  ["inputs", "programs"], "every serialisable value",
  "no test enables the feature",
  ["octane_macros/src/json.rs", "src/responder.rs", "src/request.rs"], [("JSON feature", "json")],
  na="The json feature does not compile at the pinned commit in this sandbox, so there is no type-checked program to analyse; and the encoding itself is done by code generated for the user's types and by an external crate.")
p("P37", "path! names an existing path below the crate that uses it",
  "path!(\"/x\") is the directory of the crate it is written in (CARGO_MANIFEST_DIR) followed by the given text, and the program compiles only if that path exists. Anything but a literal is rejected at compile time.",
  ["programs", "configurations"], "every use of the macro, in a single crate or a workspace",
  "no test uses the macro",
  ["octane_macros/src/lib.rs"],
  [("path macro", "octane_macros::path")])
p("P38", "Extended queries collect arrays and objects under their names",
  "In an extended query (feature extended_queries) the pieces between '&' are taken in order, each cut at its first '='. A piece name[]=v appends v to the array stored under name and a piece name[key]=v stores v under key in the object stored under name, the last '[' of a name that ends with ']' being the one that counts; the array or object is created when the name is new, and the piece is ignored when something of another kind is stored there. Any other piece replaces what is stored under its percent-decoded name by its text, which is empty without '='. Values are percent-decoded; pieces with '=' but no name are ignored. A stored value can be read only as what it is.",
  ["inputs"], "every query string",
  "two tests decode three short queries, in builds with the feature",
  ["src/query.rs", "src/request.rs"],
  [("extended decoder", "query::parse_extended_query"), ("values", "query::QueryValue")])
p("P39", "Paths are written, joined and cut without losing segments",
  "A path value, such as that of a request, is written as its segments in order, each followed by '/', and becomes a file system path of exactly these segments. Joining two paths gives the segments of the first and then those of the second. Subtracting a path from another succeeds exactly if it is equal to the beginning of the other, segment by segment, and leaves the remaining segments. Every conversion from text to a path is the same as parsing the text.",
  ["inputs"], "every pair of paths",
  "one test subtracts three short paths; nothing tests writing or joining",
  ["src/path.rs"],
  [("path values", "path::PathBuf::concat, concat_owned, subtract, to_std_pathbuf, Display, FromStr, TryFrom"), ("file system paths", "From<PathBuf> for std::path::PathBuf")])

TECH = "static analysis: path-partitioned abstract interpretation over rustc MIR (value provenance, branch facts, loop fixpoints)"
SPECIAL = {
    "P08": "static analysis: taint of request-derived numbers into allocation sites over rustc MIR",
    "P22": "static analysis: type/effect check (interior mutability, mutable statics, unsafe) over the type-checked program plus MIR dataflow",
    "P31": "static analysis: abstract interpretation over the MIR of witness programs expanded with the macros, and compile-fail witnesses",
    "P32": "static analysis: abstract interpretation over the MIR of witness programs expanded with the macros, and compile-fail witnesses",
    "P33": "static analysis: abstract interpretation over rustc MIR with integer polyhedra (divisions and remainders by constants as linear constraints), field ranges and inverse day count as the obligations",
    "P37": "static analysis: constants of type-checked witness programs, compile-fail witnesses, and dataflow over the MIR of the macro itself",
    "P01": "static analysis: panic-freedom obligations (bounds, overflow, unwrap, explicit panics) discharged by abstract interpretation over rustc MIR with a linear-inequality domain",
}
NOTE = ("Every abstract path of the anchored functions is compared with the rule, for all inputs at once; nothing is executed. Trusted: the models of "
        "std/tokio/cookie calls in engine/models.py and rustc's MIR. A construct the analysis does not recognise is reported as UNDECIDED in the "
        "evidence and on stdout, and does not fail the check.")


def main():
    R = rules.load()
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            fh.write(json.dumps({
                "id": x["id"], "title": x["title"], "statement": x["statement"],
                "quantifier": {"over": x["over"], "text": x["quant"]}, "why_tests_cant": x["why"],
                "anchors": {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]]}}) + "\n")
    checks, na = [], []
    for x in P:
        if x["id"] in R and not x["na"]:
            checks.append({"property": x["id"], "quick_cmd": "python3 check.py %s" % x["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % x["id"],
                           "technique": SPECIAL.get(x["id"], TECH), "level": "other", "level_note": x["note"] or NOTE})
        else:
            na.append({"property": x["id"], "reason": x["na"] or "no check yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
                   "notes": "No hooks in /repo: the analysis reads the unmodified crates through a rustc driver (driver/main.rs)."}, fh, indent=1)
        fh.write("\n")


main()
