#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
        "mechanism": [dict(name=a, where=b) for a, b in mech],
        "observe_at": list(observe), "hook_needed": hook}})

M = "src/messages/"
S = "src/messages/structures/"

p("C01", "Decoding untrusted bytes never panics",
  "For every byte string, decoding it as a negotiate, challenge or authenticate message, or as any structure nested in one, yields a value or an error. "
  "No input makes a decoder panic: no out-of-range slice, no failed assertion, no unwrap of a missing value, no arithmetic overflow (debug assertions included).",
  ["inputs"], "every byte string given to every decoder, in debug and release builds",
  "The unit tests decode about ten well-formed samples; a hostile peer chooses every offset, length, id and code unit.",
  [M+"field.rs", M+"challenge.rs", M+"authenticate.rs", M+"negotiate.rs", M+"unicode_string.rs", S+"avid.rs", S+"filetime.rs", S+"version.rs", S+"single_host_data.rs", S+"nt_challenge.rs", S+"lm_challenge.rs", "src/messages/structures.rs"],
  [("payload slices are taken from descriptors chosen by the peer", M+"field.rs get_data_if/get_many_if"), ("AV pair value decoding", S+"avid.rs AvPair::deserialize")],
  observe=["Wire::deserialize of every message and structure"])

p("C02", "Creating a client never panics, whatever the credentials or host name",
  "For every username, domain, password and target string, and for every content of the COMPUTERNAME variable and of the host-name file (including absent, empty or not UTF-8), creating a client returns a client. It never panics.",
  ["inputs", "configurations"], "every Unicode credential string and every host environment",
  "Tests use the ASCII strings User/Domain/Password on one machine; multi-byte passwords and an empty host-name file are never tried.",
  ["src/client.rs", "src/crypto/lm.rs", "src/crypto/nt.rs", "src/crypto/des.rs", "src/crypto.rs"],
  [("LM password preparation", "src/crypto/lm.rs prepare_password"), ("workstation name lookup", "src/client.rs get_workstation_name")],
  observe=["Client::new", "Client::new_with_domain"])

p("C03", "Payload descriptors delimit exactly the payload they describe",
  "In every encoded negotiate, challenge and authenticate message, the length/offset descriptor of each present value designates exactly the bytes of that value's encoding inside the finished message, after the fixed header, with maximum length equal to length. "
  "An absent value has an all-zero descriptor, and a present one is never dropped.",
  ["inputs"], "every combination of present and absent values, of any length up to 65535 bytes",
  "Tests round-trip three fixed messages; the descriptor arithmetic depends on which of up to seven optional parts are present and on their lengths.",
  [M+"field.rs", M+"negotiate.rs", M+"challenge.rs", M+"authenticate.rs"],
  [("descriptor creation from the payload buffer", M+"field.rs append/append_many"), ("payload starts at the fixed header size", M+"*.rs PAYLOAD_OFFSET")],
  observe=["bytes produced by Wire::serialize_into of the three messages"])

p("C04", "Encoders report exactly the number of bytes they wrote",
  "For every value of every wire structure, the size an encoder returns equals the number of bytes it handed to the writer.",
  ["inputs"], "every value of every wire structure",
  "The size feeds the 16-bit lengths of enclosing structures; tests compare a handful of encodings, and never the size of each branch.",
  [M+"field.rs", M+"utils.rs", "src/messages.rs", M+"unicode_string.rs", S+"avid.rs", S+"version.rs", S+"nt_challenge.rs", S+"lm_challenge.rs", S+"filetime.rs", S+"single_host_data.rs", S+"signature.rs", "src/messages/structures.rs"],
  [("size accumulation", "every Wire::serialize_into")],
  observe=["return value and output of Wire::serialize_into"])

p("C05", "Encoder and decoder share the MS-NLMP layout of every structure",
  "For every message header and fixed-size structure, the encoder places each field at the offset, width and little-endian byte order that MS-NLMP assigns to it, with reserved bytes zero, and the decoder reads that same field from those same bytes. "
  "No field is swapped, truncated, duplicated or lost in either direction.",
  ["inputs"], "every value of every field",
  "A few sample messages exercise some fields with values that hide swaps (equal length and max length, zeros, symmetric bytes); a bug made on both sides of a round trip is invisible to them.",
  [M+"negotiate.rs", M+"challenge.rs", M+"authenticate.rs", M+"field.rs", M+"flags.rs", M+"utils.rs", S+"version.rs", S+"filetime.rs", S+"single_host_data.rs", S+"signature.rs", S+"lm_challenge.rs", S+"nt_challenge.rs", "src/messages/structures.rs"],
  [("paired encoders and decoders", "every Wire impl")],
  observe=["Wire::serialize_into", "Wire::deserialize"])

p("C06", "Only NTLMSSP messages of the expected type are accepted",
  "A decoder of a negotiate, challenge or authenticate message succeeds only if the input starts with the 8-byte NTLMSSP signature followed by that message's own type number (1, 2 and 3 respectively, little endian). Every encoder emits exactly that prefix.",
  ["inputs"], "every input accepted by a message decoder",
  "No test gives a decoder a wrong signature or another message's type.",
  [M+"negotiate.rs", M+"challenge.rs", M+"authenticate.rs", "src/messages.rs"],
  [("signature and type verification", M+"*.rs deserialize")],
  observe=["Wire::deserialize of the three messages"])

p("C07", "Attribute ids, attribute types and option bits agree in both directions",
  "Each target-information attribute is written with the id MS-NLMP gives it and a length equal to its value's size, and the decoder turns that id back into the same attribute with the same kind of value; an unknown id, and a value that does not have the exact form of its type, are refused. "
  "Each configuration bit of the flags attribute maps to the same named option when written and when read.",
  ["inputs"], "every attribute id, every attribute value and every option combination",
  "Tests only use four of the eleven attributes, all strings; the non-string ones are never encoded or decoded.",
  [S+"avid.rs"],
  [("id table, written as discriminants and read by a match", S+"avid.rs AvId"), ("per-attribute encoding", S+"avid.rs AvPair")],
  observe=["Wire for AvId, AvPair, MsvAvFlags"])

p("C08", "The integrity code covers exactly the handshake as sent",
  "Whenever a client's authenticate message carries a message integrity code, that code is the HMAC-MD5, under the exported session key, of the negotiate message it sent, the challenge message it accepted and the authenticate message exactly as transmitted but with the code zeroed, in this order. "
  "Nothing in the message changes after the code is computed.",
  ["inputs", "histories"], "every challenge, credential, version and workstation name at the levels that send a code",
  "No test checks an integrity code at all; a flag set or a field filled in after the computation invalidates it silently.",
  ["src/client.rs", M+"authenticate.rs"],
  [("code computation", M+"authenticate.rs compute_mic"), ("final edits and serialization", "src/client.rs send_authenticate")],
  observe=["bytes returned by Client::send_authenticate"])

p("C09", "Every authentication uses fresh operating-system randomness",
  "Each authenticate message is built from a client challenge, and from a session key when one is exchanged, that are drawn in full from the operating system's random source during that very call. Neither is constant, derived from other data, reused from an earlier message or shared between the two roles.",
  ["histories", "inputs"], "every call to produce an authenticate message",
  "Randomness cannot be judged by examples; tests inject fixed challenges and keys.",
  ["src/client.rs", "src/crypto.rs", "src/messages/structures.rs"],
  [("random values", "src/messages/structures.rs random()"), ("session key choice", "src/crypto.rs encrypt_random_session_key")],
  observe=["bytes returned by Client::send_authenticate"])

p("C10", "Passwords, hashes and session keys never leave the client in the clear",
  "The password, the password hashes, and the base, exchange and exported session keys never appear in any message the client produces, in any log record or on any output stream, other than as the key or input of a one-way or encryption function. The client keeps no copy of the password itself.",
  ["inputs", "histories"], "every credential and every handshake",
  "Absence of a leak on every path is a flow property; tests compare two fixed byte strings.",
  ["src/client.rs", "src/crypto.rs", "src/crypto/ntlmv1.rs", "src/crypto/ntlmv2.rs", M+"authenticate.rs"],
  [("one-way functions", "src/crypto.rs"), ("exported key kept out of the encoding", M+"authenticate.rs serialize_into")],
  observe=["bytes returned by Client methods", "log records", "stdout/stderr"])

p("C11", "The handshake only advances negotiate, challenge, authenticate",
  "A challenge is taken into account only when the client's last step was sending a negotiate message; at any other moment it is ignored and the state is left as it was. "
  "Sending a negotiate message always starts a new handshake, an authenticate message can only be produced after a challenge was accepted, and the negotiate and challenge messages of the handshake in progress are kept unchanged until the next one starts.",
  ["histories"], "every sequence of calls on a client",
  "Tests only ever make the three calls once, in order.",
  ["src/client.rs"],
  [("state enum and its transitions", "src/client.rs ClientState")],
  state=[("state", "handshake step with the messages exchanged", "src/client.rs Client")],
  observe=["Client::send_negociate", "Client::recv_challenge", "Client::send_authenticate"])

p("C12", "A server cannot downgrade the client below its configured level",
  "At compatibility levels 3 to 5 the authenticate message contains only NTLMv2 and LMv2 responses, whatever flags and data the challenge carries. At levels 1 and 2 the DES response derived from the LM hash is never sent; only level 0 may send it.",
  ["inputs", "configurations"], "every challenge at every level",
  "Only level 0 is exercised by a client test, and against one challenge.",
  ["src/client.rs", "src/crypto/ntlmv1.rs"],
  [("level dispatch", "src/client.rs send_authenticate")],
  observe=["bytes returned by Client::send_authenticate"])

p("C13", "Responses and keys are derived as MS-NLMP prescribes for the flags",
  "For every combination of negotiated flags, the NTLMv1 NT and LM responses, the key exchange key, the exported session key and its encrypted form are each computed by the MS-NLMP formula for those flags, from the right hash, challenges and keys in the right order.",
  ["inputs"], "all flag combinations, hashes and challenges",
  "Four vectors cover four of the flag combinations; the selection among formulas is a decision table.",
  ["src/crypto.rs", "src/crypto/ntlmv1.rs", "src/client.rs"],
  [("response selection", "src/crypto/ntlmv1.rs compute_response"), ("key exchange key", "src/crypto.rs kxkey"), ("session key", "src/crypto.rs encrypt_random_session_key")],
  observe=["return values of the crypto functions", "bytes returned by Client::send_authenticate"])

p("C14", "The NTLMv2 proof, responses and key are computed over the data they vouch for",
  "At levels 3 to 5 the NT proof is the HMAC-MD5, under the NTLMv2 hash, of the server challenge followed by the exact client blob (timestamp, client challenge, the server's attributes in order, trailing zeros), the LMv2 response covers both challenges, and the session base key is the HMAC of the proof. "
  "The timestamp is the server's when the challenge carries one, else the current time, and the NT response sent is the proof followed by that blob.",
  ["inputs"], "every challenge and credential",
  "One vector with a fixed blob is tested, never the message that is sent.",
  ["src/crypto/ntlmv2.rs", "src/client.rs", S+"nt_challenge.rs"],
  [("response computation", "src/crypto/ntlmv2.rs compute_response"), ("timestamp selection", "src/client.rs send_authenticate_ntlmv2")],
  observe=["bytes returned by Client::send_authenticate"])

p("C15", "A flag announces an optional part exactly when the part is present",
  "After any sequence of setter calls, the flag announcing an optional value of a message is set when the value is present and cleared when it is removed. "
  "In every message a client sends, the version, the domain name and the encrypted session key are present exactly when the flags announce them, and the decoder looks for each optional part under the flag the encoder's side uses.",
  ["histories", "inputs"], "every setter sequence, every challenge's flags",
  "Tests set each optional value at most once and never remove one; server-chosen flags that are copied into the answer are never varied.",
  [M+"negotiate.rs", M+"challenge.rs", M+"authenticate.rs", "src/messages.rs", "src/client.rs"],
  [("setters that update value and flag together", "src/messages.rs generate_setter_getter!"), ("flag edits before sending", "src/client.rs send_authenticate")],
  observe=["public setters", "bytes returned by Client methods"])

p("C16", "The attribute list of a challenge stays ordered and terminated",
  "Every attribute added to a challenge is kept, in the order added, and the list always ends with exactly one terminator that follows all added attributes; adding the first one sets the flag announcing the list. A decoded challenge whose non-empty list does not end with the terminator is refused.",
  ["histories", "inputs"], "every sequence of additions, every decoded list",
  "One test adds four attributes to an empty list.",
  [M+"challenge.rs"],
  [("insertion before the terminator", M+"challenge.rs add_target_info"), ("terminator check", M+"challenge.rs deserialize")],
  observe=["Challenge::target_infos_add_*", "Challenge::get_target_infos"])

p("C17", "Identity strings and hashes reach the roles they belong to",
  "For DOMAIN\\user and user@domain names the part designated as domain, and no other, becomes the domain, else the domain is empty; explicit names are taken as given. "
  "The LM, NT and NTLMv2 hashes are those of this user, domain and password, each response uses the hash defined for it, and the message carries this domain, user and workstation, each in its own field.",
  ["inputs"], "every credential string",
  "The three hash types are interchangeable byte arrays and the strings interchangeable Strings; tests check only two vectors, never the wiring of a client.",
  ["src/client.rs", "src/crypto/nt.rs", "src/crypto/lm.rs"],
  [("name splitting", "src/client.rs new"), ("hash computation", "src/client.rs compute_ntlm_hashes")],
  observe=["Client::new", "bytes returned by Client::send_authenticate"])

p("C18", "The library has no side effect beyond reading the workstation name",
  "No public operation writes to a file, standard output or standard error, opens a connection, starts a process or thread, or changes the environment; diagnostics go only through the log facade. "
  "Encoding and decoding depend on nothing but their input: no clock, randomness, environment or global state.",
  ["inputs", "histories"], "every call of every public operation",
  "A test cannot see an effect it does not look for, on a path it does not take.",
  ["src/client.rs", "src/messages.rs", M+"challenge.rs", M+"field.rs"],
  [("absence of effectful callees", "whole crate")],
  observe=["process effects"])

p("C19", "Encoders neither swallow write errors nor accept short writes",
  "If the writer fails at any point, the encoder returns that failure instead of success; if the writer accepts only part of the data, the encoder keeps writing the rest or fails.",
  ["fault_sequences", "inputs"], "every failing or short-writing writer",
  "Tests only write into vectors, which never fail and never write short.",
  [M+"utils.rs", M+"field.rs", S+"avid.rs", M+"unicode_string.rs", "src/messages.rs", "src/messages/structures.rs"],
  [("write_all and error propagation", "every Wire::serialize_into")],
  observe=["Wire::serialize_into with any Write"])

p("C20", "Strict mode refuses what MS-NLMP forbids",
  "When the strict feature is enabled, a flags word that has any reserved bit set, names both a server and a domain target type, selects neither character set, or requests both extended session security and the LM key is refused, as is a challenge whose reserved bytes are not zero. Without the feature those inputs are accepted as they were sent.",
  ["inputs", "configurations"], "every flags word, with and without the feature",
  "The tests never enable the feature.",
  [M+"flags.rs", M+"challenge.rs", "Cargo.toml"],
  [("flag validation", M+"flags.rs validate"), ("reserved field check", M+"challenge.rs deserialize")],
  observe=["Wire::deserialize of Flags and Challenge, both feature settings"])

p("C21", "Unsafe byte views stay inside the buffer they view",
  "Every raw byte view made by the library covers at most the initialized memory of a live buffer of that exact element type, and no unsafe operation relies on a caller for its validity.",
  ["inputs"], "every string that is hashed or encoded",
  "A read past the end rarely changes a result; the tests use three short strings.",
  ["src/crypto/nt.rs", S+"avid.rs"],
  [("reinterpretation of UTF-16 units as bytes", "src/crypto/nt.rs, " + S + "avid.rs")],
  observe=["unsafe blocks"])

p("C22", "Text is carried as the complete little-endian UTF-16 of the string",
  "Every name in a message or hash input is the whole string, as UTF-16 code units in little-endian order, with no terminator, truncation or substitution; negotiate-message names are the string's own bytes. Decoding such a field yields the same string, including characters outside the basic plane.",
  ["inputs"], "every Unicode string",
  "Tests use ASCII only.",
  [M+"unicode_string.rs", S+"avid.rs", "src/crypto/nt.rs"],
  [("UTF-16 encoding", M+"unicode_string.rs"), ("UTF-16 decoding", M+"unicode_string.rs")],
  observe=["Wire for UnicodeString/OEMString/AvPair"])

p("C23", "Timestamps are 100-nanosecond ticks since 1601 and convert back",
  "The file time made from a system time is the number of 100-nanosecond intervals since 1 January 1601 UTC, split into low and high 32-bit halves, and converting a file time back yields the same instant to that precision or reports that it cannot be represented.",
  ["inputs"], "every representable system time",
  "No test converts a time.",
  [S+"filetime.rs"],
  [("conversion arithmetic", S+"filetime.rs")],
  observe=["FileTime conversions"])

p("C24", "The Windows client surfaces every SSPI failure and exposes only written bytes",
  "Whenever the Windows security interface reports an error, the operation returns an error. Bytes handed to the caller are only those the interface has written, and no handle is used before the interface initialized it.",
  ["fault_sequences"], "every status the interface may return, at every call",
  "The file is not even compiled on the test platform, and on Windows one successful exchange is tested.",
  ["src/win.rs"],
  [("status handling after each SSPI call", "src/win.rs initialize_security_context")],
  observe=["WinClient::new", "WinClient::negotiate", "WinClient::challenge"])

p("C25", "Hash and cipher outputs are numerically right",
  "MD4, MD5, HMAC-MD5, DES with 7-byte keys and RC4 produce the values their standards define for every input.",
  ["inputs"], "every input",
  "Tests sample a few vectors.",
  ["src/crypto.rs", "src/crypto/des.rs"],
  [("delegation to the cipher crates, DES key expansion", "src/crypto.rs, src/crypto/des.rs")],
  observe=["crypto functions"])

p("C26", "A conforming server accepts the handshake",
  "A server that implements MS-NLMP and knows the same credentials accepts the authenticate message of every level it allows, and derives the same session key.",
  ["inputs", "configurations"], "every conforming server",
  "No server is involved in the tests.",
  ["src/client.rs"], [("whole handshake", "src/client.rs")],
  observe=["a peer"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
