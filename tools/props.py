#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. CLAIMED lists what has a check."""
import json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                why_tests_cant=why,
                anchors=dict(files=files,
                             mechanism=[dict(name=n, where=w) for n, w in mech],
                             state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                             observe_at=list(observe)))

DEALER = ["dealer.go"]
BROKER = ["broker.go"]

PROPS = [
P("C01", "A call reaches one live matching callee, and its answer comes back intact",
  "A call by an attached session whose URI some live registration matches produces exactly one invocation, sent to a session that currently holds a matching registration, under that registration's id and with the caller's arguments unchanged; if no live registration matches, the caller alone gets wamp.error.no_such_procedure carrying its request id. "
  "The callee's result or error goes back to the calling session, and to nobody else, with the call's request id, the payload and (for errors) the error URI and details unchanged. "
  "This holds for every history of sessions that attach, register, unregister, call, leave and crash, and for payloads that stay encoded as well as decoded ones.",
  ["histories", "schedules", "fault_sequences", "inputs"],
  "all sequences of RPC messages by any number of sessions, with departures at any point, for exact, prefix and wildcard registrations and all invocation policies",
  "the tests call one procedure with one or two sessions in a fixed order; which callees exist when a call arrives is a matter of history and interleaving",
  DEALER, [("routing of CALL, YIELD and ERROR under one lock", "Dealer.ReceiveMessage")],
  [("registrations", "which sessions hold which procedure", "Dealer.registrationsByProcedure"), ("pending calls", "invocation id to caller and callee", "Dealer.pendingCalls")],
  ["Dealer.ReceiveMessage"]),
P("C02", "A call is settled at most once, by its callee only",
  "Every invocation has an id no other invocation of the same router ever had, and the first error or final result its callee sends settles it: whatever any session sends for that id afterwards, or for an id it was never given, is delivered to nobody and changes nothing. "
  "Progressive results are delivered as such, in order and before the final answer, only when the caller asked for them; when it did not, the callee's first result is the final one. "
  "A session that is neither the caller nor the callee can never settle or answer a call.",
  ["histories", "schedules", "fault_sequences"],
  "all interleavings of results, progressive results, errors, duplicates and forged replies from any session for open, settled and unknown invocations",
  "tests send one yield per call; duplicates, late replies and third parties in combination with departures are not sampled",
  DEALER, [("pending call table consulted and cleared under one lock", "Dealer.ReceiveMessage YIELD and ERROR")],
  [("pending calls", "open invocations", "Dealer.pendingCalls")], ["Dealer.ReceiveMessage"]),
P("C03", "Registrations live exactly as long as their holders keep them",
  "From the moment a session is told it is registered until it unregisters, leaves or crashes, calls that match can be routed to it; afterwards none is, and when the last holder is gone the procedure is unknown and can be registered afresh by anyone with any policy and match. "
  "Ending one session's hold on a registration never affects other holders of it or any other registration, and an attempt to unregister what one does not hold is refused and changes nothing. "
  "The router's answer to whether a procedure is registered always agrees with this.",
  ["histories", "fault_sequences", "crash_points"],
  "all sequences of register, unregister, leave, crash and re-attach over exact, prefix and wildcard procedures with shared and single registrations",
  "tests register and unregister once; stale index entries only show after particular sequences of joins and departures",
  DEALER, [("registration maps and pattern indexes updated together", "Dealer.ReceiveMessage REGISTER/UNREGISTER, Dealer.RemoveSession")],
  [("indexes", "by procedure, by session, prefix tree, wildcard map", "Dealer")], ["Dealer.ReceiveMessage", "Dealer.HasProcedure"]),
P("C04", "Pattern calls go to the most specific registration, whatever came before",
  "Whenever several live registrations match a call, it goes to the exact one if there is one, otherwise to the prefix registration with the longest matching prefix, otherwise to one of the wildcard registrations that match. "
  "The choice depends only on which registrations are live at that moment, not on the order in which they and others came and went.",
  ["histories", "inputs"],
  "all sets and histories of overlapping exact, nested prefix and wildcard registrations, and all URIs called",
  "tests register one pattern at a time; precedence matters only with several overlapping ones, after others were removed",
  DEALER, [("exact map, then radix tree, then wildcard scan", "Dealer.ReceiveMessage CALL")],
  [("prefix tree", "prefix registrations", "Dealer.prefixTree")], ["Dealer.ReceiveMessage"]),
P("C05", "Exclusive registrations stay exclusive; shared ones follow their policy",
  "A procedure registered without a sharing policy has exactly one holder: further registrations of it are refused with wamp.error.procedure_already_exists and leave it untouched; a shared one is joined, under the same registration id, exactly by sessions that ask for the same policy and the same match. "
  "While the holders stay the same, calls to a shared registration go to the session that registered first (first), or last (last), to all holders in turn (roundrobin), or to arbitrary holders none of which is left out for good (random). "
  "This holds whatever sessions joined and left the registration before.",
  ["histories", "schedules"],
  "all sequences of registrations, departures and calls over all invocation policies",
  "tests use two or three callees that never leave; turn order and membership after departures are not sampled",
  DEALER, [("policy check on REGISTER, callee selection on CALL", "Dealer.ReceiveMessage")],
  [("callees", "holders in order of registration", "Registration.callees"), ("turn", "next callee", "Registration.nextCallee")], ["Dealer.ReceiveMessage"]),
P("C06", "All chunks of a progressive call belong to one invocation of one callee",
  "Every chunk of a progressive call, from the first to the final one, reaches the same callee under the same invocation id, in order, unaltered, and marked as progress exactly when more is to come, no matter what other calls are made, which request ids other sessions use, or how registrations and callees change meanwhile. "
  "Once the call is over or its callee is gone, further chunks start nothing and reach nobody; after the final chunk the caller's later calls are new calls.",
  ["histories", "schedules", "fault_sequences"],
  "all interleavings of chunks with other calls, early answers, unregistrations, policy rotation and departures",
  "the tests send a few chunks with nothing in between",
  DEALER, [("call to invocation map", "Dealer.ReceiveMessage CALL")],
  [("open progressive calls", "caller and request id to invocation", "Dealer.invocationIDbyCall")], ["Dealer.ReceiveMessage"]),
P("C07", "A publication reaches every matching subscriber once, and nobody else",
  "An event goes, exactly once each, to every session that at that moment holds a matching subscription (exact, prefix or wildcard), and to no other session; the publisher itself is left out unless it set exclude_me to false. "
  "The event carries the publication's arguments unchanged and the id of a live matching subscription that its recipients hold. "
  "Publications by sessions that are not attached are refused.",
  ["histories", "inputs", "configurations"],
  "all histories of subscriptions and departures, overlapping patterns, topics and publish options",
  "tests publish to one subscription; the delivery set is a function of the whole history",
  BROKER, [("topic lookup and recipient list under one lock", "Broker.ReceivePublish")],
  [("subscriptions", "topic and match to members", "Broker.subscriptionsByTopic")], ["Broker.ReceivePublish"]),
P("C08", "Subscriptions live exactly as long as their holders keep them",
  "From the moment a session is told it is subscribed until it unsubscribes, leaves or crashes, matching publications of others are delivered to it; afterwards none is. "
  "Subscribers to the same topic with the same match share one subscription id while any of them remains, different matches are different subscriptions, and ending one session's hold never affects other holders or other subscriptions; unsubscribing what one does not hold is refused and changes nothing. "
  "The router's answer to whether a topic is subscribed always agrees with this.",
  ["histories", "fault_sequences", "crash_points"],
  "all sequences of subscribe, unsubscribe, leave, crash and re-attach over exact, prefix and wildcard topics",
  "tests subscribe and unsubscribe once; stale or prematurely dropped index entries need longer histories",
  BROKER, [("subscription maps and pattern indexes updated together", "Broker.ReceiveMessage, Broker.RemoveSession")],
  [("indexes", "by topic and match, by session, prefix tree, wildcard map", "Broker")], ["Broker.ReceivePublish", "Broker.HasSubscription"]),
P("C09", "A publisher is acknowledged exactly when it asked to be, with the event's id",
  "A publisher gets exactly one acknowledgement, carrying its request id, if it set acknowledge to true, whether or not anybody receives the event, and none otherwise. "
  "The publication id in the acknowledgement is the one in the delivered event, and no two publications of a router ever have the same id.",
  ["histories", "inputs"],
  "all histories and publish options, with and without recipients",
  "tests check one publication at a time",
  BROKER, [("acknowledgement and event built from one publication id", "Broker.ReceivePublish")],
  [("id generator", "publication ids", "Broker.idGen")], ["Broker.ReceivePublish"]),
P("C10", "Identities are disclosed exactly when disclosure is on, and truthfully",
  "An invocation or event names its caller's or publisher's session id, authid and authrole if and only if disclosure is switched on at that moment, and then names those of the session that really sent it. "
  "An invocation or event that reaches a session through a prefix or wildcard pattern always names the concrete procedure or topic, and never a different one.",
  ["histories", "configurations"],
  "all histories with disclosure switched on and off, session ids reused by other identities, pattern and exact matches, binary and decoded payloads",
  "tests check disclosure for one call with one identity",
  ["dealer.go", "broker.go"], [("details of INVOCATION and EVENT", "Dealer.ReceiveMessage, Broker.ReceivePublish")],
  [("disclosure flags", "", "Dealer.details, Broker.details")], ["Dealer.ReceiveMessage", "Broker.ReceivePublish"]),
P("C11", "A departed session is gone for good; its id starts clean when reused",
  "After a session has been removed, nothing is addressed to it any more, everything it still sends is refused without effect, and removing it again is an error. "
  "A later session that attaches under the same id inherits nothing: no registration, no subscription, and no answer to its predecessor's calls. "
  "While a session is attached, a second attach under its id is refused and leaves the first one as it was.",
  ["histories", "fault_sequences", "crash_points"],
  "departures and crashes at every point of every history, stragglers after removal, re-attachment under the same id",
  "tests remove a session at the end; what it leaves behind shows only in what happens next",
  ["dealer.go", "broker.go"], [("cleanup on removal", "Dealer.RemoveSession, Broker.RemoveSession"), ("attachment", "AddSession")],
  [("per-session indexes", "", "Dealer, Broker")], ["Dealer.ReceiveMessage", "Broker.ReceivePublish"]),
P("C20", "Payloads and URIs survive the whole path between different clients unchanged",
  "What a client publishes, calls with, yields or raises reaches the application at the other end with equal arguments, keyword arguments, URIs, ids and progress marks, for all values that the serializers of both can express, whichever these are and however the byte stream is cut into pieces. "
  "Every message that the router addresses to a client that follows the protocol is understood and accepted by that client.",
  ["inputs", "histories", "configurations", "schedules"],
  "all message types and payload shapes, every pair of serializers, every segmentation of the stream, every message order the links allow",
  "the tests round-trip single messages through one serializer",
  ["serializers/json.go", "serializers/cbor.go", "serializers/msgpack.go", "serializers/helpers.go", "messages/", "session.go", "transports/rawsocket.go"],
  [("encode and decode", "serializers"), ("framing", "transports/rawsocket.go"), ("client session", "Session.SendMessage, Session.Receive")], [], ["Session.Receive"]),
P("C26", "Once faults stop, every request of a remaining client is answered",
  "When sessions stop coming and going and all messages in flight have been delivered, every register, unregister, subscribe, unsubscribe and acknowledged publish of a client that is still connected has got exactly one answer (a refusal counts as one), and so has every call whose callee has answered it, or has left, or that its caller has cancelled. "
  "No client gets an answer to something it did not ask.",
  ["histories", "fault_sequences", "schedules", "crash_points"],
  "all runs of clients, latencies, crashes at any point and router restarts, followed by a quiet period",
  "tests never let a party fail in the middle of an exchange",
  ["dealer.go", "broker.go", "session.go"], [("a reply for each request", "Dealer.ReceiveMessage, Broker.ReceiveMessage, Session.ReceiveMessage")], [], ["Session.Receive"]),
]

EXTRA = os.path.join(V, "tools", "props_extra.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())

PROPS.sort(key=lambda p: p["id"])

TECH = "deterministic simulation with fault injection: seeded search over simulated runs, replayable"

def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    notes = globals().get("NOTES", {})
    na = globals().get("NOT_APPLICABLE", {})
    checks = []
    for p in PROPS:
        if p["id"] in na:
            continue
        checks.append(dict(property=p["id"],
                           quick_cmd="./check.sh %s quick" % p["id"],
                           thorough_cmd="./check.sh %s thorough" % p["id"],
                           technique=TECH, level="exploration",
                           level_note=notes.get(p["id"], "seeded simulated histories of the real router against a reference model; bounded by the number of runs and by the sizes in DESIGN.md")))
    m = dict(version=1, setup_cmd="./build.sh plain && ./build.sh race", checks=checks,
             not_applicable=[dict(property=k, reason=v) for k, v in sorted(na.items())])
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

main()
