#!/usr/bin/env python3
"""Writes known_findings.txt. Findings which are not repaired are added as JSON objects by hand to OPEN."""
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPEN = []
FIXED = [
 ("C01", "338b0a9", "an invocation whose method panics got two completions"),
 ("C01", "f96284a", "an invocation without id which can not be executed got a completion"),
 ("C10", "e21db62", "an invocation with too few arguments and surplus StreamIds crashed the process"),
 ("C10", "9738488", "a peer could invoke OnConnected, OnDisconnected, Initialize of the hub and Init of the receiver"),
 ("C03", "303997d", "cancellations of ended or unknown streams used up the number of cancellations, later streams could not be cancelled"),
 ("C04", "464b4c0", "upload channels stayed open when the connection ended, refused uploads kept their streams, an id in use was overwritten"),
 ("C02", "031f731", "concurrent calls could get the same invocation id"),
 ("C02", "f100ff4", "a call got an empty InvokeResult after its result, a result which does not fit got lost"),
 ("C02", "211d4dd", "an error could overtake the stream items before it, calls pending at Stop ended without result"),
 ("C02", "5fd82eb", "PushStreams crashed on nil arguments"),
 ("C11", "bdbf487", "messages which arrive together influenced each other (types of the frame before, messages before a malformed one lost)"),
 ("C11", "3a7fb17", "the JSON reader span forever when the connection ended within a frame"),
 ("C11", "ae5d183", "MessagePack frames were lost or merged depending on the reads"),
 ("C10", "a18f440", "MessagePack header counts and unhashable map keys crashed the process"),
 ("C11", "4d7bf88", "messages which arrive together with the handshake were lost"),
 ("C13", "4bfd28f", "the handshake error response was no valid JSON for some protocol names"),
 ("C11", "dd5b931", "messages received before the end of the transport could be dropped"),
 ("C20", "aa26354", "a value which can not be encoded ended the connection or left the call without answer"),
 ("C08", "8c74ff4", "a connection whose peer does not read was never ended, not even by shutdown"),
 ("C09", "db904b4", "several hubs were created for a connection with PerConnectionHubFactory, and some for no connection"),
 ("C06", "cd634b0", "a join in progress could leave an ended connection in its group for ever, empty groups were kept, an ended connection could remove its successor"),
 ("C15", "6d36c4c", "the connected state was set asynchronously and could replace the closed state of a client whose connection had ended"),
 ("C16", "4a793fa", "after a failed handshake the same connection was used again for ever; state and waits blocked while connecting"),
 ("C15", "37b356a", "the state stayed connected while the client waited to connect again; a client canceled then was never closed"),
 ("C15", "9ed3c7a", "observers got state changes out of order, or not at all, and an observer not reading blocked the client"),
 ("C02", "08be76f", "a call could use the loops of two connections when the client connected again meanwhile"),
 ("C16", "6ad91b9", "the backoff was not reset after a short connection; a close message of an earlier connection ended the client"),
 ("C02", "20058c0", "a call could deliver its result or error and another error when the client was stopped"),
 ("C02", "6037b94", "a stream which the server ended illegally with a result after items looked successful"),
 ("C14", "93cc35f", "a message which could not be encoded postponed the keep-alive ping"),
 ("C14", "71b11e1", "a peer which did not read its error completions stopped the loop and its timeout"),
 ("C13", "1862932", "data which a connection returned together with an error was lost"),
 ("C13", "dc2b672", "the client took any JSON message for a successful handshake response"),
 ("C16", "d7781ba", "MessagePack close messages were malformed"),
 ("C17", "17ea157", "an id could be used by two connections, with negotiate version 1 even one after the other"),
 ("C17", "3d4134b", "with negotiate version 1 the Go client could not post to its event stream, and the hub saw the token instead of the connection id"),
 ("C17", "2d7eedb", "the event stream stayed open after the connection had ended"),
 ("C17", "74595bd", "the websocket stayed open, unread, after the connection had ended without error"),
 ("C17", "1bab013", "a write to an ended event stream blocked the end of its response forever"),
 ("C18", "6f18b0c", "after a POST which failed (too large, or aborted) the event stream connection refused every later POST"),
 ("C18", "66a7416", "a POST in progress at the end of its event stream connection was never answered"),
 ("C18", "6438cb9", "concurrent writes to an event stream got the results of each other"),
 ("C18", "9e2ef21", "websocket messages which did not fit into the read buffer were truncated"),
 ("C18", "83726c6", "messages of the maximum size were refused by the HTTP transports because of their separator"),
 ("C18", "cd6ca74", "the Go client lost or truncated events which arrived in several parts"),
 ("C18", "1c1744f", "the Go client did not notice the end of the event stream"),
 ("C18", "53019a6", "concurrent sends of the Go client over event streams failed with conflict and ended the connection"),
 ("C18", "faabee9", "the Go client did not close its event stream or websocket when it had ended"),
 ("C19", "5cddd6d", "messages over Redis to all clients and groups asked for a completion, and the answer ended the receiving connection"),
 ("C19", "815978c", "clients of the server which sent a message over Redis did not receive it"),
 ("C19", "a2ad207", "integer arguments over Redis arrived as floating point numbers, large ones changed"),
 ("C19", "682ac6c", "messages over Redis right after the start of a server were lost"),
 ("C19", "4eafe90", "joins and leaves over Redis of connections of other servers left members behind for ever; concurrent joins and leaves raced"),
 ("C19", "5a6c91a", "connections which ended with their server stayed in their Redis groups"),
 ("C19", "29f9cf4", "messages over Redis to the group with the empty name were lost"),
 ("C19", "27ca65c", "a message over Redis to a client with an empty connection id was sent to all clients"),
 ("C17", "9bfdd40", "a reconnecting client could not fall back to another transport, because HttpConnectionFactory changed the options of the caller"),
 ("C17", "48ba04d", "headers of the caller were changed by NewHTTPConnection, nil headers panicked"),
 ("C17", "aafba96", "the POST requests of event stream connections did not have the headers of WithHTTPHeaders"),
]
with open(os.path.join(ROOT, "known_findings.txt"), "w") as f:
    f.write("# open findings: one JSON object per line {property, status: open, module, match, what}; repaired ones: fixed: ...\n")
    for o in OPEN:
        f.write(o + "\n")
    for p, c, w in FIXED:
        f.write("fixed: property=%s %s %s\n" % (p, c, w))
