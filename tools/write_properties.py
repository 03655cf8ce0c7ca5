#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that wording and anchors stay in one place)."""
import json
G = "src/generated_schema/<version>/mcp_schema.rs"
U = "src/generated_schema/<version>/schema_utils.rs"
V = "src/generated_schema/<version>/validators.rs"
VERS = ["2024_11_05", "2025_03_26", "2025_06_18", "2025_11_25", "2026_07_28", "draft"]
def files(*ks):
    out = []
    for k in ks: out += [k.replace("<version>", v) for v in VERS]
    return out
P = []
def prop(id, title, statement, over, text, why, fs, mech, observe, hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": fs, "mechanism": [{"name": n, "where": w} for n, w in mech],
              "observe_at": observe, "hook_needed": hook}})

prop("C01", "Schema-conforming documents survive decoding and re-encoding unchanged",
 "In every supported protocol version, a JSON document that conforms to a protocol type decodes as that type, and encoding the decoded value gives back the same JSON: same members, names, values, list order, and kept integer/string and null/absent distinctions where the protocol makes them; only an explicit null or empty list for an optional member may turn into absence. Encoding is a fixed point: decoding and encoding again changes nothing. Open extension data (metadata, unknown-key maps, structured content, tool arguments) comes back verbatim.",
 ["inputs", "configurations"], "every type of the six protocol versions, every conforming document: each optional member present or absent, each alternative, boundary numbers, strings and list lengths",
 "The tests round-trip a few dozen sample messages; a renamed, skipped, swapped or lossy member of any of some 900 types goes unnoticed unless a sample happens to carry it.",
 files(G, U), [("serde derives and attributes of each protocol type", G), ("hand-written Serialize/Deserialize of envelopes and dispatch enums", U)],
 ["serde_json::from_str/from_value and to_string/to_value of each type"])
prop("C02", "Documents that do not conform to a protocol type are refused",
 "Decoding a document as a protocol type fails with an error if a required member is missing, if a member (at any depth) has a JSON type the protocol does not allow there, or if an enumerated string is not one of the listed values (reading an object's members from an array, by position, aside). It never yields a value with an invented default for such a member. Unknown additional members alone are not a reason to refuse an ordinary protocol object.",
 ["inputs", "configurations"], "every type of the six versions; every required member dropped, every member given each wrong JSON kind, every enum given unlisted, differently-cased, and near-miss values",
 "The tests decode almost only well-formed samples; an added default, a widened type or an alias accepted for an enum value passes all of them.",
 files(G, U), [("required fields without serde(default); typed fields; enum renames", G), ("strict envelope visitors", U)],
 ["Result of serde_json::from_str per type"])
prop("C03", "Fixed protocol constants are always emitted, reported, and enforced",
 "Members whose value the protocol fixes (method names, type and mode discriminators, JSON-RPC version, error codes, reference kinds) carry exactly that value in every encoding of a constructed object, and the accessors for them report it. Decoding accepts only that exact value; any other value, case variation or JSON kind is refused.",
 ["inputs", "configurations"], "every constant member of every type in the six versions x (exact, near-miss, wrong kind, missing) values, and every constructor",
 "There are over 400 constant members; the tests touch a handful of method names and never a wrong constant for most of them.",
 files(G, V), [("validate! macro and const_str_validator/const_i64 validators", V), ("private constant fields, ::new(), method_value()/type_value() accessors", G)],
 ["to_value(T::new(..)), T::method_value() and similar, from_str with altered constants"])
prop("C04", "Every wire message is classified as exactly one kind, on both sides",
 "Any JSON-RPC message object decoded as a client or server message is classified as request, notification, response or error according to its id, method, result and error members: method with an id is a request, method without an id a notification, result a response, error an error. The kind predicates, the message-type query and the kind-specific accessors all agree with that single classification. Objects that are none of these are refused.",
 ["inputs", "configurations"], "all combinations of id (absent, integer, string, null, invalid), method, params, result and error members, over all known and unknown methods, in both directions and all versions",
 "Classification rests on the order of untagged alternatives and visitor strictness; tests only feed one clean example of each kind.",
 files(U), [("untagged ClientMessage/ServerMessage enums and RpcMessage predicates", U)],
 ["ClientMessage/ServerMessage from_str, is_request(), is_response(), is_notification(), is_error(), message_type()"])
prop("C05", "A known method decodes to its own message type, any other is kept as custom",
 "For each direction, a request or notification whose method belongs to that direction decodes into precisely the typed message for that method with all its parameters; no method is routed to another method's type. A method unknown in that direction is preserved as a custom message with its name and parameters, never dropped or misread as a typed one. The method reported for any message equals the method on the wire.",
 ["inputs", "configurations"], "all methods of both directions and both kinds, unknown and near-miss method names, with minimal and full parameters, in all versions",
 "Dispatch tables are large hand- or generator-written matches; the tests check some entries once, and never a method used in the wrong direction with every payload shape.",
 files(U, G), [("Deserialize for ClientRequest/ServerRequest/ClientNotification/ServerNotification", G), ("RequestFromX/NotificationFromX custom fallbacks and method()", U)],
 ["variant of decoded message, method()"])
prop("C06", "A value of a union type decodes to the alternative it was written as",
 "Where the protocol allows one of several shapes (content blocks, resource contents, references, schema definitions, elicitation modes, identifiers, tokens, tool or sampling content), a document with the identifying members of one alternative decodes to exactly that alternative, at any nesting depth, regardless of member order and of additional optional members. Converting an alternative into the union and encoding it yields the JSON of that alternative.",
 ["inputs", "configurations"], "every union type of the six versions, every alternative, minimal to maximal documents of each alternative",
 "Untagged decoding picks the first alternative that fits; whether a later alternative is shadowed depends on optional members and ordering that a few samples cannot cover.",
 files(G, U), [("order of variants in untagged enums and required/constant members that tell them apart", G)],
 ["enum variant after from_str"])
prop("C07", "Results are recognised as what they are and lose nothing",
 "A successful response keeps its result intact: decoding and re-encoding yields the same result object, whatever request it answers. In versions with a result kind marker, a result marked as requiring input decodes as the input-required result, any other as the complete result of its shape, and an unrecognised result is kept generically; the queries for the marker agree with it. Typed results convert to generic results and back without loss.",
 ["inputs", "configurations"], "every result type, minimal to maximal, as response result in both directions, with every result-kind marker (absent, known, unknown, ill-typed), in all versions",
 "Result decoding is untagged with many structurally overlapping alternatives; the tests check a few results in isolation.",
 files(G, U), [("ServerResult/ClientResult untagged order and custom resultType logic", G), ("ResultFromX, GenericResult conversions, is_input_required/is_complete/as_input_required", U)],
 ["Client/ServerJsonrpcResponse from_str/to_string"])
prop("C08", "Envelopes carry id, method, params and payload faithfully",
 "Building a request, notification, response or error from its parts and encoding it gives an envelope with exactly jsonrpc \"2.0\", the given id in its original form (integer or string), the method of the payload and its params (absent when there are none). Decoding an envelope yields the same parts, and the id, method and version queries return them. A malformed envelope (missing or ill-typed id where one is required, wrong or ill-typed version, missing payload) is refused.",
 ["inputs", "configurations"], "all request, notification, response and error types x id values (0, negative, 64-bit boundaries, empty/unicode/numeric strings) x direction x version",
 "The envelope codecs are hand-written per version and per message kind with one match arm per method; the tests cover a few arms with small positive integer ids.",
 files(U, G), [("Serialize/Deserialize for Client/ServerJsonrpcRequest, -Notification, -Response", U)],
 ["::new(..)/to_string/from_str, request_id(), method(), jsonrpc()"])
prop("C09", "Turning a payload into a wire message enforces the id rules",
 "Building a wire message from a request, a result or an error demands a request id and puts exactly that id on the message; building one from a notification demands that there is no id. In every violating combination an error is returned and no message is built. The resulting message is of the kind and content of the given payload, whatever path (typed payload, wrapper, or generic message) it was built through.",
 ["inputs", "configurations"], "every payload type that can be turned into a message x id present/absent x id kinds x direction x version",
 "There is one implementation per payload type in the older versions (over 40 each); tests try a few with an id and rarely the violating combination.",
 files(U), [("FromMessage/ToMessage implementations", U)],
 ["ClientMessage::from_message, ServerMessage::from_message, to_message"])
prop("C10", "Conversions between specific and general message types are exact inverses",
 "Converting a specific payload into a more general type and back gives the original payload. Converting a general value to a specific type it does not hold, or narrowing a message to a kind it is not, returns an error (or nothing) and never another value; the error is the documented one.",
 ["inputs", "configurations"], "every From/TryFrom pair and every narrowing accessor of all versions, x every alternative the general value can hold",
 "There are several hundred conversion implementations, each with its own match; the tests exercise a small fraction, mostly on the success side.",
 files(U, G), [("From/TryFrom implementations", G + ", " + U), ("as_request/as_response/as_notification/as_error, as_text_content and similar", U)],
 ["From/TryFrom results, as_*()"])
prop("C11", "Capability checks allow exactly what the declared capabilities allow",
 "Whether a peer may be sent a given request or notification is decided exactly by the capabilities it declared (including nested task capabilities): allowed if and only if the capability that the method needs is declared. A refusal is an error that names the method and what is missing; methods that need no capability are always allowed. The helper queries about tasks and task-augmented requests agree with the declared capabilities and the request.",
 ["inputs", "configurations"], "every subset of top-level and nested capabilities x every request and notification method of the direction, incl. task-augmented variants and unknown methods",
 "Tests check a few capability/method pairs; the property is about the full cross product.",
 files(U)[3:], [("can_handle_request, can_accept_notification, can_list_tasks and similar, is_task_augmented", U)],
 ["Result of can_handle_request/can_accept_notification for each combination"])
prop("C12", "Elicitation property schemas built from a JSON map are faithful or refused",
 "Building an elicitation property schema from a JSON object picks the schema kind its type and keywords call for and carries over every keyword of that kind with its value. An object with no usable type, an unsupported type, or ill-formed choices is refused with an error. A keyword whose value has the wrong JSON type is refused in a choice schema and counts as absent in a plain string, number or boolean schema. It never panics and never silently drops choices or defaults.",
 ["inputs", "configurations"], "all maps over the recognised keywords (type, title, description, format, minLength, maxLength, minimum, maximum, default, enum, enumNames, oneOf, items...) with well- and ill-typed values",
 "Tests convert a handful of maps; the branches depend on combinations of keywords and value kinds.",
 files(U)[2:], [("TryFrom<&Map<String, Value>> for PrimitiveSchemaDefinition", U)],
 ["PrimitiveSchemaDefinition::try_from(&map), then to_value"])
prop("C13", "Protocol errors carry the right code, message, data and request id",
 "Each error constructor yields its documented numeric code and message, and overriding message or data changes just that; numeric codes convert to and from named codes consistently. An error message for a request carries that request's id and the given code, message and data unchanged. A tool failure turned into a tool result is flagged as error and carries the failure text, and text that is not a valid message yields a parse error.",
 ["inputs", "configurations", "histories"], "all constructors x all override sequences x data values x ids; all named codes; all tool error constructors with arbitrary names and messages",
 "Tests pin few constructors; the code tables and override chains of six versions are otherwise unchecked (one constructor used another one's message).",
 files(U), [("RpcErrorCodes/SdkErrorCodes, RpcError/SdkError constructors, CallToolError, JsonrpcError::create", U)],
 ["to_value of error objects; to_string of messages"])
prop("C14", "Protocol version names parse, print and compare consistently",
 "Every supported protocol version name parses to its version and prints back as the same name; any other name is refused. The default version reported by each enabled schema is the version of that schema.",
 ["inputs", "configurations"], "all version names and near misses",
 "Tests check a list of known names only.",
 ["src/generated_schema.rs", "src/generated_schema/protocol_version.rs"], [("ProtocolVersion FromStr/TryFrom/Display", "src/generated_schema/protocol_version.rs"), ("LATEST_PROTOCOL_VERSION", G)],
 ["ProtocolVersion::try_from, to_string, ProtocolVersion constants"])
prop("C15", "Builder call sequences set exactly what they name and nothing else",
 "After any sequence of builder calls on a result, parameter, metadata, resource or error object, every member equals the last value given for it, members never named keep their initial value, and content added step by step appears in call order. The encoded object shows exactly that state, independent of the order of calls on different members.",
 ["histories", "configurations"], "all call sequences up to a bound over every builder method of each builder type in all versions, and random longer ones",
 "Tests use one or two builder calls at a time; interference between calls only shows in sequences.",
 files(U), [("with_*/add_*/insert/set_* builder methods", U)],
 ["to_value after each call; getters"])
prop("C16", "Batches keep their members, order and size, and single messages stay single",
 "A JSON array of messages decodes to a batch with exactly those messages in order, each classified as it would be alone, and a single object to a single message; encoding gives the same array or object back. Batch queries and narrowing (is batch, includes a request, as single, as batch) agree with the content, and a batch with one invalid member is refused as a whole.",
 ["inputs", "histories", "configurations"], "all batches up to a bound over all kinds of messages in both directions, including empty, one-element and mixed with an invalid member",
 "Tests use one or two fixed batches; composition over all message kinds and sizes is not covered.",
 files(U), [("ClientMessages/ServerMessages/MessagesFromClient/MessagesFromServer", U)],
 ["from_str/to_string, is_batch, includes_request, as_single, as_batch, FromMessage for batches"])
prop("C17", "The multi-round input flow and task flow keep their state across rounds",
 "When a server asks a client for input, each keyed input request reaches the client unchanged, the client's keyed responses and the opaque request state reach the server unchanged with the retried request, and only requests that support it accept them (others are refused with an error). Per-request metadata (client info, log level, progress token, trace context, extra keys) set on a request is read back as set and does not disturb other members. Task results stay related to the task they were tagged with, and only final statuses count as terminal.",
 ["histories", "inputs", "configurations"], "all histories of a bounded input-required conversation with several keys and rounds; all request types x metadata settings; all task statuses",
 "The flow spans several messages and helper types that the tests only touch one at a time.",
 files(U)[3:], [("with_input_responses, with_request_state, InputRequests/InputResponses, RequestFromClient::with_meta/meta, related_task_id, is_terminal", U)],
 ["serialized requests/results at each step of the flow"])
prop("C18", "Decoding is total, and text, value and byte decoding agree",
 "Decoding any text at all as a client or server message either yields a message or an error, without panic, and parsing from text, bytes and a JSON value gives the same outcome. Displaying a message yields its JSON encoding, and parsing that text yields an equal message; invalid text yields a parse error carrying the JSON-RPC parse error code.",
 ["inputs", "configurations"], "all texts: well-formed documents, truncations and mutations of them, arbitrary JSON of every kind, nesting and duplicate members, for all message types with text parsing",
 "Tests parse a few good messages and a single broken one.",
 files(U), [("FromStr/Display implementations of all message types", U)],
 ["str::parse, to_string, serde_json::from_slice/from_value"])
prop("C19", "Several schema versions can be used side by side without interfering",
 "Any documented combination of schema versions can be enabled together, each under its own name; the types of each version behave exactly as when that version is enabled alone. The crate root re-exports the one of the three newest versions that is enabled (by default the latest).",
 ["configurations", "inputs"], "all documented combinations of version features x the sampled behaviours of each version",
 "Tests are compiled for one version at a time.",
 ["src/generated_schema.rs", "src/rust-mcp-schema.rs", "Cargo.toml"] , [("feature-gated modules and re-exports", "src/generated_schema.rs")],
 ["building with combined features; mcp_<version>:: modules"])
prop("C20", "A client and a server built on the library understand each other",
 "In any conversation, every message built and encoded by one side is decoded by the other side as the same kind, with the same id, method and payload, and every response or error can be matched by its id to exactly one outstanding request of the other side. Requests of both directions may be outstanding at once with equal ids without being confused. After initialization, both sides hold the same negotiated version, capabilities and implementation info.",
 ["histories", "schedules", "configurations"], "all interleavings of a bounded two-way conversation with several outstanding requests, notifications, errors and batches, over all message types",
 "Tests never run a conversation; they check encoding and decoding of single messages on one side.",
 files(U), [("FromMessage/ToMessage, Display/FromStr, request_id of messages of both directions", U)],
 ["messages as text on a simulated wire"])
if __name__ == "__main__":
    import os
    d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(d, "properties.jsonl"), "w") as w:
        for p in P: w.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))
