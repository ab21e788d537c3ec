From e1cb8358e56b2a8f0a19b7c0fa96458a51fe3933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 01/43] fix: dealer: reject UNREGISTER of an unknown
 registration instead of crashing

---
 dealer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dealer.go b/dealer.go
index 2836a0d..1ee43ce 100644
--- a/dealer.go
+++ b/dealer.go
@@ -346,7 +346,12 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				unregister.RegistrationID())
 		}
 
-		registration := registrations[unregister.RegistrationID()]
+		registration, exists := registrations[unregister.RegistrationID()]
+		if !exists {
+			return nil, fmt.Errorf("unregister: session %d has no registration %d", sessionID,
+				unregister.RegistrationID())
+		}
+
 		delete(registration.Registrants, sessionID)
 
 		if len(registration.Registrants) == 0 {
-- 
2.43.0


From fae03756f5aa19897bc6bc6e3af8b98c610e96ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:53 +0000
Subject: [PATCH 02/43] fix: dealer: UNREGISTER withdraws the session from a
 shared registration

---
 dealer.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/dealer.go b/dealer.go
index 1ee43ce..070bdcd 100644
--- a/dealer.go
+++ b/dealer.go
@@ -54,6 +54,17 @@ type Registration struct {
 	Match            string
 }
 
+func (r *Registration) removeCallee(id uint64) {
+	callees := make([]uint64, 0, len(r.callees))
+	for _, callee := range r.callees {
+		if callee != id {
+			callees = append(callees, callee)
+		}
+	}
+
+	r.callees = callees
+}
+
 type CallMap struct {
 	CallerID uint64
 	CallID   uint64
@@ -353,9 +364,10 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		}
 
 		delete(registration.Registrants, sessionID)
+		delete(registrations, unregister.RegistrationID())
+		registration.removeCallee(sessionID)
 
 		if len(registration.Registrants) == 0 {
-			delete(registrations, unregister.RegistrationID())
 			delete(d.registrationsByProcedure, registration.Procedure)
 			if registration.Match == MatchPrefix {
 				d.prefixTree.Delete([]byte(registration.Procedure))
-- 
2.43.0


From acc3012079daac749429a1e98ed3fad42ae8b26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 03/43] fix: dealer: list a session once per shared
 registration and drop it whole when it leaves

---
 dealer.go | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/dealer.go b/dealer.go
index 070bdcd..23eef4c 100644
--- a/dealer.go
+++ b/dealer.go
@@ -138,15 +138,7 @@ func (d *Dealer) RemoveSession(id uint64) error {
 			delete(d.wcRegistrationsByProcedure, registration.Procedure)
 		}
 
-		for i, callee := range registration.callees {
-			if callee == id {
-				if len(registration.callees) == 1 {
-					registration.callees = make([]uint64, 0)
-				} else {
-					registration.callees = append(registration.callees[:i], registration.callees[i+1:]...)
-				}
-			}
-		}
+		registration.removeCallee(id)
 	}
 
 	delete(d.registrationsBySession, id)
@@ -319,9 +311,10 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 					"wamp.error.procedure_already_exists", nil, nil)
 				return &MessageWithRecipient{Message: err, Recipient: sessionID}, nil
 			}
-			registration.Registrants[sessionID] = sessionID
-			registration.callees = append(registration.callees, sessionID)
-
+			if _, registered := registration.Registrants[sessionID]; !registered {
+				registration.Registrants[sessionID] = sessionID
+				registration.callees = append(registration.callees, sessionID)
+			}
 		} else {
 			registration = &Registration{
 				ID:               d.idGen.NextID(),
-- 
2.43.0


From b28b97bfe9947e2813d1289e5d5406e4a138c2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 04/43] fix: dealer: drop pattern registrations from their
 index exactly when the last callee leaves

---
 dealer.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dealer.go b/dealer.go
index 23eef4c..8e96dcf 100644
--- a/dealer.go
+++ b/dealer.go
@@ -129,13 +129,13 @@ func (d *Dealer) RemoveSession(id uint64) error {
 		delete(registration.Registrants, id)
 		if len(registration.Registrants) == 0 {
 			delete(d.registrationsByProcedure, registration.Procedure)
-		}
-		if registration.Match == MatchPrefix {
-			d.prefixTree.Delete([]byte(registration.Procedure))
-		}
+			if registration.Match == MatchPrefix {
+				d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))
+			}
 
-		if registration.Match == MatchWildcard {
-			delete(d.wcRegistrationsByProcedure, registration.Procedure)
+			if registration.Match == MatchWildcard {
+				delete(d.wcRegistrationsByProcedure, registration.Procedure)
+			}
 		}
 
 		registration.removeCallee(id)
@@ -363,7 +363,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		if len(registration.Registrants) == 0 {
 			delete(d.registrationsByProcedure, registration.Procedure)
 			if registration.Match == MatchPrefix {
-				d.prefixTree.Delete([]byte(registration.Procedure))
+				d.prefixTree, _, _ = d.prefixTree.Delete([]byte(registration.Procedure))
 			}
 			if registration.Match == MatchWildcard {
 				delete(d.wcRegistrationsByProcedure, registration.Procedure)
-- 
2.43.0


From f619ca0f839dd8841ce0185ec727e492e4bbb89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:55 +0000
Subject: [PATCH 05/43] fix: dealer: a shared registration is joined only with
 its own match policy

---
 dealer.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dealer.go b/dealer.go
index 8e96dcf..d81a86a 100644
--- a/dealer.go
+++ b/dealer.go
@@ -303,10 +303,15 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		}
 
 		invokePolicy := util.ToString(register.Options()[OptionInvoke])
+		match := util.ToString(register.Options()[OptionMatch])
+		if match != MatchPrefix && match != MatchWildcard {
+			match = MatchExact
+		}
+
 		registration, exists := d.registrationsByProcedure[register.Procedure()]
 		if exists {
 			if registration.InvocationPolicy == "" || registration.InvocationPolicy == InvokeSingle ||
-				registration.InvocationPolicy != invokePolicy {
+				registration.InvocationPolicy != invokePolicy || registration.Match != match {
 				err := messages.NewError(messages.MessageTypeRegister, register.RequestID(), map[string]any{},
 					"wamp.error.procedure_already_exists", nil, nil)
 				return &MessageWithRecipient{Message: err, Recipient: sessionID}, nil
@@ -322,18 +327,14 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				Registrants:      map[uint64]uint64{sessionID: sessionID},
 				callees:          []uint64{sessionID},
 				InvocationPolicy: invokePolicy,
+				Match:            match,
 			}
 
-			match := util.ToString(register.Options()[OptionMatch])
 			switch match {
 			case MatchPrefix:
-				registration.Match = match
 				d.prefixTree, _, _ = d.prefixTree.Insert([]byte(registration.Procedure), registration)
 			case MatchWildcard:
-				registration.Match = match
 				d.wcRegistrationsByProcedure[registration.Procedure] = registration
-			default:
-				registration.Match = MatchExact
 			}
 		}
 
-- 
2.43.0


From d3506957d187d5b91148b080ac4c63c1390eccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:56 +0000
Subject: [PATCH 06/43] fix: dealer: reject a CALL from a session that is not
 attached

---
 dealer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dealer.go b/dealer.go
index d81a86a..e0af45b 100644
--- a/dealer.go
+++ b/dealer.go
@@ -168,6 +168,11 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 	switch msg.Type() {
 	case messages.MessageTypeCall:
 		call := msg.(*messages.Call)
+		caller, attached := d.sessions[sessionID]
+		if !attached {
+			return nil, fmt.Errorf("cannot call procedure for non-existent session %d", sessionID)
+		}
+
 		var regs *Registration
 		var found bool
 
@@ -246,7 +251,6 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		}
 
 		if d.details {
-			caller := d.sessions[sessionID]
 			details["procedure"] = call.Procedure()
 			details["caller"] = sessionID
 			details["caller_authid"] = caller.AuthID()
-- 
2.43.0


From e62587cb454c5d9c9a57c0a129d5d2f50484477d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:58 +0000
Subject: [PATCH 07/43] fix: dealer: refuse YIELD and ERROR from sessions that
 are no party to the call

---
 dealer.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/dealer.go b/dealer.go
index e0af45b..afb6d4e 100644
--- a/dealer.go
+++ b/dealer.go
@@ -44,6 +44,11 @@ type PendingInvocation struct {
 	ReceiveProgress bool
 }
 
+// involves tells whether the session is one of the two parties of the call.
+func (p *PendingInvocation) involves(sessionID uint64) bool {
+	return p.CalleeID == sessionID || p.CallerID == sessionID
+}
+
 type Registration struct {
 	ID               uint64
 	Procedure        string
@@ -274,7 +279,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 	case messages.MessageTypeYield:
 		yield := msg.(*messages.Yield)
 		pending, exists := d.pendingCalls[yield.RequestID()]
-		if !exists {
+		if !exists || !pending.involves(sessionID) {
 			return nil, fmt.Errorf("yield: not pending calls for session %d", sessionID)
 		}
 
@@ -384,7 +389,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		}
 
 		pending, exists := d.pendingCalls[wErr.RequestID()]
-		if !exists {
+		if !exists || !pending.involves(sessionID) {
 			return nil, fmt.Errorf("dealer: no pending invocation for %d", wErr.RequestID())
 		}
 
-- 
2.43.0


From fabc144ec473848b1e9c7fa5c3531ea9b6622aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 08/43] fix: dealer: keep all chunks of a progressive call on
 one invocation and callee

---
 dealer.go | 44 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/dealer.go b/dealer.go
index afb6d4e..c0e1a03 100644
--- a/dealer.go
+++ b/dealer.go
@@ -42,6 +42,8 @@ type PendingInvocation struct {
 	CalleeID        uint64
 	Progress        bool
 	ReceiveProgress bool
+
+	registration *Registration
 }
 
 // involves tells whether the session is one of the two parties of the call.
@@ -178,11 +180,32 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			return nil, fmt.Errorf("cannot call procedure for non-existent session %d", sessionID)
 		}
 
+		receiveProgress, _ := call.Options()[OptionReceiveProgress].(bool)
+		progress, _ := call.Options()[OptionProgress].(bool)
+
+		// While the final chunk of a progressive call is outstanding, further
+		// chunks belong to the invocation that the first one started.
+		callMap := CallMap{CallerID: sessionID, CallID: call.RequestID()}
+		invocationID, continued := d.invocationIDbyCall[callMap]
+		pending := d.pendingCalls[invocationID]
+		if continued && !progress {
+			delete(d.invocationIDbyCall, callMap)
+		}
+
+		if continued && pending == nil {
+			return nil, fmt.Errorf("call: call %d of session %d is already complete", call.RequestID(), sessionID)
+		}
+
 		var regs *Registration
 		var found bool
 
-		regs, found = d.registrationsByProcedure[call.Procedure()]
-		if !found || len(regs.Registrants) == 0 {
+		if continued {
+			regs, found = pending.registration, true
+		} else {
+			regs, found = d.registrationsByProcedure[call.Procedure()]
+		}
+
+		if !continued && (!found || len(regs.Registrants) == 0) {
 			if d.prefixTree.Len() > 0 {
 				_, reg, ok := d.prefixTree.Root().LongestPrefix([]byte(call.Procedure()))
 				if ok {
@@ -200,14 +223,16 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			}
 		}
 
-		if !found || len(regs.Registrants) == 0 {
+		if !continued && (!found || len(regs.Registrants) == 0) {
 			callErr := messages.NewError(messages.MessageTypeCall, call.RequestID(), map[string]any{},
 				"wamp.error.no_such_procedure", nil, nil)
 			return &MessageWithRecipient{Message: callErr, Recipient: sessionID}, nil
 		}
 
 		var calleeID uint64
-		if len(regs.callees) > 1 {
+		if continued {
+			calleeID = pending.CalleeID
+		} else if len(regs.callees) > 1 {
 			switch regs.InvocationPolicy {
 			case InvokeFirst:
 				calleeID = regs.callees[0]
@@ -230,11 +255,7 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			calleeID = regs.callees[0]
 		}
 
-		receiveProgress, _ := call.Options()[OptionReceiveProgress].(bool)
-		progress, _ := call.Options()[OptionProgress].(bool)
-
-		invocationID, ok := d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}]
-		if !ok || !progress {
+		if !continued {
 			invocationID = d.idGen.NextID()
 			d.pendingCalls[invocationID] = &PendingInvocation{
 				RequestID:       call.RequestID(),
@@ -242,8 +263,11 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				CalleeID:        calleeID,
 				ReceiveProgress: receiveProgress,
 				Progress:        progress,
+				registration:    regs,
+			}
+			if progress {
+				d.invocationIDbyCall[callMap] = invocationID
 			}
-			d.invocationIDbyCall[CallMap{CallerID: sessionID, CallID: call.RequestID()}] = invocationID
 		}
 
 		details := map[string]any{}
-- 
2.43.0


From 101673820b889c87415d9e04b108b8d355623441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:49 +0000
Subject: [PATCH 09/43] fix: dealer: forget the pending calls of a session that
 leaves

---
 dealer.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dealer.go b/dealer.go
index c0e1a03..68d0d78 100644
--- a/dealer.go
+++ b/dealer.go
@@ -148,6 +148,18 @@ func (d *Dealer) RemoveSession(id uint64) error {
 		registration.removeCallee(id)
 	}
 
+	for invocationID, pending := range d.pendingCalls {
+		if pending.involves(id) {
+			delete(d.pendingCalls, invocationID)
+		}
+	}
+
+	for call := range d.invocationIDbyCall {
+		if call.CallerID == id {
+			delete(d.invocationIDbyCall, call)
+		}
+	}
+
 	delete(d.registrationsBySession, id)
 	delete(d.sessions, id)
 
-- 
2.43.0


From 1680e9c3938af596a49556cd64fe95083a499c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:28 +0000
Subject: [PATCH 10/43] fix: dealer: tell the callee of a pattern registration
 which procedure was called

---
 dealer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dealer.go b/dealer.go
index 68d0d78..86fcd25 100644
--- a/dealer.go
+++ b/dealer.go
@@ -291,6 +291,10 @@ func (d *Dealer) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 			details[OptionProgress] = progress
 		}
 
+		if regs.Match != MatchExact {
+			details["procedure"] = call.Procedure()
+		}
+
 		if d.details {
 			details["procedure"] = call.Procedure()
 			details["caller"] = sessionID
-- 
2.43.0


From 93b1505c2840709f4e606d15edaa3ef22add124c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:29 +0000
Subject: [PATCH 11/43] fix: broker: tell subscribers of a pattern which topic
 was published to

---
 broker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/broker.go b/broker.go
index daf09e1..5daf77f 100644
--- a/broker.go
+++ b/broker.go
@@ -208,6 +208,10 @@ func (b *Broker) ReceivePublish(sessionID uint64, publish *messages.Publish) (*P
 	}
 	if exists && len(subscription.Subscribers) > 0 {
 		details := map[string]any{}
+		if subscription.Match != MatchExact {
+			details["topic"] = publish.Topic()
+		}
+
 		if b.details {
 			publisher := b.sessions[sessionID]
 			details["topic"] = publish.Topic()
-- 
2.43.0


From 4e360573df433c726350588c255d7bbebaee1c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 12/43] fix: broker: keep a pattern subscription indexed while
 it has subscribers

---
 broker.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/broker.go b/broker.go
index 5daf77f..8b404f4 100644
--- a/broker.go
+++ b/broker.go
@@ -69,14 +69,14 @@ func (b *Broker) RemoveSession(id uint64) error {
 
 		if len(subscription.Subscribers) == 0 {
 			delete(b.subscriptionsByTopic, v.Topic)
-		}
 
-		if subscription.Match == MatchPrefix {
-			b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
-		}
+			if subscription.Match == MatchPrefix {
+				b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
+			}
 
-		if subscription.Match == MatchWildcard {
-			delete(b.wcSubscriptionsByTopic, v.Topic)
+			if subscription.Match == MatchWildcard {
+				delete(b.wcSubscriptionsByTopic, v.Topic)
+			}
 		}
 	}
 
@@ -155,12 +155,12 @@ func (b *Broker) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		delete(subscription.Subscribers, sessionID)
 		if len(subscription.Subscribers) == 0 {
 			delete(b.subscriptionsByTopic, subscription.Topic)
-		}
-		if subscription.Match == MatchPrefix {
-			b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
-		}
-		if subscription.Match == MatchWildcard {
-			delete(b.wcSubscriptionsByTopic, subscription.Topic)
+			if subscription.Match == MatchPrefix {
+				b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
+			}
+			if subscription.Match == MatchWildcard {
+				delete(b.wcSubscriptionsByTopic, subscription.Topic)
+			}
 		}
 
 		delete(b.subscriptionsBySession[sessionID], subscription.ID)
-- 
2.43.0


From 0c59a10d59dfceeae06fbb1253549f881d4feedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 13/43] fix: broker: subscriptions to one URI with different
 match policies are different subscriptions

---
 broker.go | 47 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/broker.go b/broker.go
index 8b404f4..f362bfd 100644
--- a/broker.go
+++ b/broker.go
@@ -14,8 +14,18 @@ const (
 	OptAcknowledge = "acknowledge"
 )
 
+// subscriptionKey tells apart subscriptions to the same URI with different match policies.
+type subscriptionKey struct {
+	topic string
+	match string
+}
+
+func (s *Subscription) key() subscriptionKey {
+	return subscriptionKey{topic: s.Topic, match: s.Match}
+}
+
 type Broker struct {
-	subscriptionsByTopic   map[string]*Subscription
+	subscriptionsByTopic   map[subscriptionKey]*Subscription
 	subscriptionsBySession map[uint64]map[uint64]*Subscription
 	sessions               map[uint64]*SessionDetails
 	prefixTree             *iradix.Tree[*Subscription]
@@ -29,7 +39,7 @@ type Broker struct {
 func NewBroker() *Broker {
 	return &Broker{
 		sessions:               map[uint64]*SessionDetails{},
-		subscriptionsByTopic:   make(map[string]*Subscription),
+		subscriptionsByTopic:   make(map[subscriptionKey]*Subscription),
 		subscriptionsBySession: make(map[uint64]map[uint64]*Subscription),
 		idGen:                  &SessionScopeIDGenerator{},
 		prefixTree:             iradix.New[*Subscription](),
@@ -62,13 +72,13 @@ func (b *Broker) RemoveSession(id uint64) error {
 
 	delete(b.subscriptionsBySession, id)
 	for _, v := range subscriptions {
-		subscription, ok := b.subscriptionsByTopic[v.Topic]
+		subscription, ok := b.subscriptionsByTopic[v.key()]
 		if ok {
 			delete(subscription.Subscribers, id)
 		}
 
 		if len(subscription.Subscribers) == 0 {
-			delete(b.subscriptionsByTopic, v.Topic)
+			delete(b.subscriptionsByTopic, v.key())
 
 			if subscription.Match == MatchPrefix {
 				b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
@@ -89,8 +99,13 @@ func (b *Broker) HasSubscription(topic string) bool {
 	b.Lock()
 	defer b.Unlock()
 
-	_, exists := b.subscriptionsByTopic[topic]
-	return exists
+	for _, match := range []string{MatchExact, MatchPrefix, MatchWildcard} {
+		if _, exists := b.subscriptionsByTopic[subscriptionKey{topic: topic, match: match}]; exists {
+			return true
+		}
+	}
+
+	return false
 }
 
 func (b *Broker) AutoDisclosePublisher(disclose bool) {
@@ -111,7 +126,13 @@ func (b *Broker) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 		}
 
 		subscribe := msg.(*messages.Subscribe)
-		subscription, exists := b.subscriptionsByTopic[subscribe.Topic()]
+		match := util.ToString(subscribe.Options()[OptionMatch])
+		if match != MatchPrefix && match != MatchWildcard {
+			match = MatchExact
+		}
+
+		key := subscriptionKey{topic: subscribe.Topic(), match: match}
+		subscription, exists := b.subscriptionsByTopic[key]
 		if exists {
 			subscription.Subscribers[sessionID] = sessionID
 		} else {
@@ -119,19 +140,15 @@ func (b *Broker) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 				ID:          b.idGen.NextID(),
 				Topic:       subscribe.Topic(),
 				Subscribers: map[uint64]uint64{sessionID: sessionID},
+				Match:       match,
 			}
-			match := util.ToString(subscribe.Options()[OptionMatch])
 			switch match {
 			case MatchPrefix:
-				subscription.Match = match
 				b.prefixTree, _, _ = b.prefixTree.Insert([]byte(subscription.Topic), subscription)
 			case MatchWildcard:
-				subscription.Match = match
 				b.wcSubscriptionsByTopic[subscription.Topic] = subscription
-			default:
-				subscription.Match = MatchExact
 			}
-			b.subscriptionsByTopic[subscribe.Topic()] = subscription
+			b.subscriptionsByTopic[key] = subscription
 		}
 
 		b.subscriptionsBySession[sessionID][subscription.ID] = subscription
@@ -154,7 +171,7 @@ func (b *Broker) ReceiveMessage(sessionID uint64, msg messages.Message) (*Messag
 
 		delete(subscription.Subscribers, sessionID)
 		if len(subscription.Subscribers) == 0 {
-			delete(b.subscriptionsByTopic, subscription.Topic)
+			delete(b.subscriptionsByTopic, subscription.key())
 			if subscription.Match == MatchPrefix {
 				b.prefixTree, _, _ = b.prefixTree.Delete([]byte(subscription.Topic))
 			}
@@ -188,7 +205,7 @@ func (b *Broker) ReceivePublish(sessionID uint64, publish *messages.Publish) (*P
 	publicationID := b.idGen.NextID()
 
 	var subscription *Subscription
-	subscription, exists = b.subscriptionsByTopic[publish.Topic()]
+	subscription, exists = b.subscriptionsByTopic[subscriptionKey{topic: publish.Topic(), match: MatchExact}]
 	if !exists || len(subscription.Subscribers) == 0 {
 		if b.prefixTree.Len() > 0 {
 			_, sub, ok := b.prefixTree.Root().LongestPrefix([]byte(publish.Topic()))
-- 
2.43.0


From 4e4e47067fb05eb026aec8ae01ecbc44e7f2d7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 14/43] fix: broker: exclude the publisher from its own event,
 as advertised, unless exclude_me is false

---
 broker.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/broker.go b/broker.go
index f362bfd..fabb2d7 100644
--- a/broker.go
+++ b/broker.go
@@ -12,6 +12,7 @@ import (
 
 const (
 	OptAcknowledge = "acknowledge"
+	OptExcludeMe   = "exclude_me"
 )
 
 // subscriptionKey tells apart subscriptions to the same URI with different match policies.
@@ -223,7 +224,17 @@ func (b *Broker) ReceivePublish(sessionID uint64, publish *messages.Publish) (*P
 			}
 		}
 	}
-	if exists && len(subscription.Subscribers) > 0 {
+	if exists {
+		// the publisher does not receive its own event unless it asks for it.
+		excludeMe, ok := publish.Options()[OptExcludeMe].(bool)
+		for _, subscriber := range subscription.Subscribers {
+			if subscriber != sessionID || (ok && !excludeMe) {
+				result.Recipients = append(result.Recipients, subscriber)
+			}
+		}
+	}
+
+	if len(result.Recipients) > 0 {
 		details := map[string]any{}
 		if subscription.Match != MatchExact {
 			details["topic"] = publish.Topic()
@@ -239,9 +250,6 @@ func (b *Broker) ReceivePublish(sessionID uint64, publish *messages.Publish) (*P
 
 		event := messages.NewEvent(subscription.ID, publicationID, details, publish.Args(), publish.KwArgs())
 		result.Event = event
-		for _, subscriber := range subscription.Subscribers {
-			result.Recipients = append(result.Recipients, subscriber)
-		}
 	}
 
 	ack, ok := publish.Options()[OptAcknowledge].(bool)
-- 
2.43.0


From 4e3865356180bfb4f127d01adece877917ebd306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:26 +0000
Subject: [PATCH 15/43] fix: session: a reply consumes the request it answers

---
 session.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/session.go b/session.go
index 35e63a3..70abcd0 100644
--- a/session.go
+++ b/session.go
@@ -128,14 +128,16 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 	switch msg.Type() {
 	case messages.MessageTypeResult:
 		result := msg.(*messages.Result)
-		_, exists := w.callRequests.Load(result.RequestID())
-		if !exists {
-			return nil, fmt.Errorf("received RESULT for invalid requestID")
+		progress, _ := result.Details()[OptionProgress].(bool)
+		var exists bool
+		if progress {
+			_, exists = w.callRequests.Load(result.RequestID())
+		} else {
+			_, exists = w.callRequests.LoadAndDelete(result.RequestID())
 		}
 
-		progress, _ := result.Details()[OptionProgress].(bool)
-		if !progress {
-			w.callRequests.Delete(result.RequestID())
+		if !exists {
+			return nil, fmt.Errorf("received RESULT for invalid requestID")
 		}
 
 		return result, nil
@@ -150,7 +152,7 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return registered, nil
 	case messages.MessageTypeUnregistered:
 		unregistered := msg.(*messages.Unregistered)
-		registrationID, exists := w.unregisterRequests.Load(unregistered.RequestID())
+		registrationID, exists := w.unregisterRequests.LoadAndDelete(unregistered.RequestID())
 		if !exists {
 			return nil, fmt.Errorf("received UNREGISTERED for invalid requestID")
 		}
@@ -181,7 +183,7 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return published, nil
 	case messages.MessageTypeSubscribed:
 		subscribed := msg.(*messages.Subscribed)
-		_, exists := w.subscribeRequests.Load(subscribed.RequestID())
+		_, exists := w.subscribeRequests.LoadAndDelete(subscribed.RequestID())
 		if !exists {
 			return nil, fmt.Errorf("received SUBSCRIBED for invalid requestID")
 		}
@@ -191,7 +193,7 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return subscribed, nil
 	case messages.MessageTypeUnsubscribed:
 		unsubscribed := msg.(*messages.Unsubscribed)
-		subscriptionID, exists := w.unsubscribeRequests.Load(unsubscribed.RequestID())
+		subscriptionID, exists := w.unsubscribeRequests.LoadAndDelete(unsubscribed.RequestID())
 		if !exists {
 			return nil, fmt.Errorf("received UNSUBSCRIBED for invalid requestID")
 		}
-- 
2.43.0


From ba819e7c4ec4c9f0e1e6b6f0fac1c4698445ac32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 16/43] fix: acceptor: an aborted handshake stays aborted

---
 acceptor.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/acceptor.go b/acceptor.go
index 6dd80e7..fa253dc 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -16,6 +16,7 @@ const (
 	AcceptorStateNone acceptorState = iota
 	AcceptorStateChallengeSent
 	AcceptorStateWelcomeSent
+	AcceptorStateAborted
 )
 
 var RouterRoles = map[string]any{ //nolint:gochecknoglobals
@@ -96,10 +97,23 @@ func (a *Acceptor) Receive(data []byte) (payload []byte, welcomed bool, err erro
 }
 
 func (a *Acceptor) ReceiveMessage(msg messages.Message) (messages.Message, error) {
+	reply, err := a.receiveMessage(msg)
+	if err == nil && reply.Type() == messages.MessageTypeAbort {
+		a.state = AcceptorStateAborted
+	}
+
+	return reply, err
+}
+
+func (a *Acceptor) receiveMessage(msg messages.Message) (messages.Message, error) {
 	if a.state == AcceptorStateWelcomeSent {
 		return nil, errors.New("session was established, not expecting any new messages")
 	}
 
+	if a.state == AcceptorStateAborted {
+		return nil, errors.New("session was aborted, not expecting any new messages")
+	}
+
 	if msg.Type() == messages.MessageTypeHello {
 		if a.state != AcceptorStateNone {
 			return nil, fmt.Errorf("state must be %d when processing HELLO but was %d", AcceptorStateNone, a.state)
-- 
2.43.0


From 6163988a665f64d4336eeec620b1bcda26685d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 17/43] fix: acceptor: accept a cryptosign signature only for
 its own challenge

---
 acceptor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/acceptor.go b/acceptor.go
index fa253dc..0fde20f 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -4,6 +4,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"strings"
 
 	"github.com/xconnio/wampproto-go/auth"
 	"github.com/xconnio/wampproto-go/messages"
@@ -253,8 +254,9 @@ func (a *Acceptor) receiveMessage(msg messages.Message) (messages.Message, error
 				return nil, fmt.Errorf("failed to decode public key")
 			}
 
+			// the signed message must be the challenge of this very handshake.
 			verified, _ := auth.VerifyCryptoSignSignature(authenticate.Signature(), key)
-			if !verified {
+			if !verified || !strings.HasSuffix(strings.ToLower(authenticate.Signature()), a.challenge) {
 				abort := messages.NewAbort(map[string]any{}, "wamp.error.authentication_failed", nil, nil)
 				return abort, nil
 			}
-- 
2.43.0


From 839785e8828504a509406783459047f58d9f17c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 18/43] fix: auth: fall back to anonymous only where the server
 allows it

---
 auth/helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auth/helpers.go b/auth/helpers.go
index d12a558..2e2fd79 100644
--- a/auth/helpers.go
+++ b/auth/helpers.go
@@ -10,7 +10,7 @@ func SelectAuthMethod(allowedMethods []Method, proposedMethods []string) (Method
 	var unsupported []string
 	var method Method
 
-	if len(proposedMethods) == 0 {
+	if len(proposedMethods) == 0 && slices.Contains(allowedMethods, Anonymous) {
 		return Anonymous, nil
 	}
 
-- 
2.43.0


From 5479e3153752f6956afde3cda16acb3768bfcafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 19/43] fix: acceptor: put the authmethod in WELCOME as a plain
 string

---
 acceptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/acceptor.go b/acceptor.go
index 0fde20f..ec1d369 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -276,7 +276,7 @@ func (a *Acceptor) sendWelcome(sessionID uint64, response auth.Response, authExt
 		"roles":      RouterRoles,
 		"authid":     response.AuthID(),
 		"authrole":   response.AuthRole(),
-		"authmethod": a.authMethod,
+		"authmethod": string(a.authMethod),
 	})
 
 	a.sessionDetails = NewSessionDetails(sessionID, a.hello.Realm(), response.AuthID(), response.AuthRole(),
-- 
2.43.0


From f370a6d722612e717e3720dc16d79a9ecad6aafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 20/43] fix: acceptor: welcome a WAMP-CRA client with the
 session ID it signed

---
 acceptor.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/acceptor.go b/acceptor.go
index ec1d369..162c3c2 100644
--- a/acceptor.go
+++ b/acceptor.go
@@ -58,6 +58,7 @@ type Acceptor struct {
 	request    auth.Request
 	response   auth.Response
 	challenge  string
+	sessionID  uint64
 
 	sessionDetails *SessionDetails
 }
@@ -156,7 +157,8 @@ func (a *Acceptor) receiveMessage(msg messages.Message) (messages.Message, error
 				return nil, errors.New("internal response for WAMPCRA auth was of invalid type")
 			}
 
-			chStr, err := auth.GenerateWAMPCRAChallenge(GenerateID(), response.AuthID(), response.AuthRole(), "dynamic")
+			sessionID := GenerateID()
+			chStr, err := auth.GenerateWAMPCRAChallenge(sessionID, response.AuthID(), response.AuthRole(), "dynamic")
 			if err != nil {
 				return nil, err
 			}
@@ -171,6 +173,7 @@ func (a *Acceptor) receiveMessage(msg messages.Message) (messages.Message, error
 				extra["iterations"] = craResponse.Iterations()
 			}
 
+			a.sessionID = sessionID
 			a.challenge = chStr
 			a.response = response
 			a.state = AcceptorStateChallengeSent
@@ -245,7 +248,7 @@ func (a *Acceptor) receiveMessage(msg messages.Message) (messages.Message, error
 				return abort, nil
 			}
 
-			return a.sendWelcome(GenerateID(), a.response, authenticate.Extra()), nil
+			return a.sendWelcome(a.sessionID, a.response, authenticate.Extra()), nil
 		case auth.CryptoSign:
 			authenticate := msg.(*messages.Authenticate)
 			request := a.request.(*auth.RequestCryptoSign)
-- 
2.43.0


From 78fe3cb40b313438492381569ec303295381f964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 21/43] fix: joiner: a WELCOME without authid or authrole must
 not crash the client

---
 joiner.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/joiner.go b/joiner.go
index 09bc3ff..1d93d43 100644
--- a/joiner.go
+++ b/joiner.go
@@ -122,8 +122,9 @@ func (j *Joiner) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		welcome := msg.(*messages.Welcome)
 		roles, _ := welcome.Details()["roles"].(map[string]any)
 		authMethod, _ := welcome.Details()["authmethod"].(string)
-		j.sessionDetails = NewSessionDetails(welcome.SessionID(), j.realm, welcome.Details()["authid"].(string),
-			welcome.Details()["authrole"].(string), authMethod, j.serializer.Static(), roles, nil)
+		authID, _ := welcome.Details()["authid"].(string)
+		authRole, _ := welcome.Details()["authrole"].(string)
+		j.sessionDetails = NewSessionDetails(welcome.SessionID(), j.realm, authID, authRole, authMethod, j.serializer.Static(), roles, nil)
 		j.state = joinerStateJoined
 
 		return nil, nil
-- 
2.43.0


From cfe2acd7b28c0efa81b60c5cfec585475625393e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 22/43] fix: joiner: an aborted handshake stays aborted

---
 joiner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/joiner.go b/joiner.go
index 1d93d43..71396b3 100644
--- a/joiner.go
+++ b/joiner.go
@@ -40,6 +40,7 @@ const (
 	joinerStateHelloSent
 	joinerStateAuthenticateSent
 	joinerStateJoined
+	joinerStateAborted
 )
 
 type Joiner struct {
@@ -143,6 +144,9 @@ func (j *Joiner) ReceiveMessage(msg messages.Message) (messages.Message, error)
 		return authenticate, nil
 	} else if msg.Type() == messages.MessageTypeAbort {
 		abort := msg.(*messages.Abort)
+		if j.state != joinerStateJoined {
+			j.state = joinerStateAborted
+		}
 
 		errStr := abort.Reason()
 		if len(abort.Args()) > 0 {
-- 
2.43.0


From b7b08a18194892029b79bb7c7a89f91d32e75e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:06 +0000
Subject: [PATCH 23/43] fix: idgen: draw session IDs from a seeded source and
 never draw 0

---
 idgen.go | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/idgen.go b/idgen.go
index d986cdb..f053fb8 100644
--- a/idgen.go
+++ b/idgen.go
@@ -1,24 +1,17 @@
 package wampproto
 
 import (
+	"math/rand"
 	"sync"
-	"time"
-
-	"golang.org/x/exp/rand"
 
 	"github.com/xconnio/wampproto-go/util"
 )
 
 const maxID uint64 = 1 << 53
 
-func init() {
-	source := rand.NewSource(uint64(time.Now().UnixNano())) // #nosec
-	rand.New(source)
-}
-
-// GenerateID generates a random WAMP ID.
+// GenerateID generates a random WAMP ID, in the range 1 to 2^53 - 1.
 func GenerateID() uint64 {
-	id, _ := util.AsUInt64(rand.Int63n(int64(maxID)))
+	id, _ := util.AsUInt64(1 + rand.Int63n(int64(maxID)-1)) // #nosec
 	return id
 }
 
-- 
2.43.0


From e55e273d5c556191b27ff68a722113911d6ebc20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 24/43] fix: serializers: an empty message is an error, not a
 crash

---
 serializers/helpers.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/serializers/helpers.go b/serializers/helpers.go
index 239f08f..d08e5e6 100644
--- a/serializers/helpers.go
+++ b/serializers/helpers.go
@@ -1,6 +1,7 @@
 package serializers
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/xconnio/wampproto-go/messages"
@@ -8,6 +9,10 @@ import (
 )
 
 func ToMessage(wampMsg []any) (messages.Message, error) {
+	if len(wampMsg) == 0 {
+		return nil, errors.New("invalid message: empty")
+	}
+
 	messageType, _ := util.AsUInt64(wampMsg[0])
 	var msg messages.Message
 	switch messageType {
-- 
2.43.0


From ffa376435ae7abd9c46695515806362f7da05d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:34 +0000
Subject: [PATCH 25/43] fix: messages: a HELLO or AUTHENTICATE without its last
 element must not crash the router

---
 messages/authenticate.go | 2 +-
 messages/hello.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/messages/authenticate.go b/messages/authenticate.go
index 90979c2..f85162b 100644
--- a/messages/authenticate.go
+++ b/messages/authenticate.go
@@ -8,7 +8,7 @@ const MessageTypeAuthenticate uint64 = 5
 const MessageNameAuthenticate = "AUTHENTICATE"
 
 var authenticateValidationSpec = ValidationSpec{ //nolint:gochecknoglobals
-	MinLength: 2,
+	MinLength: 3,
 	MaxLength: 3,
 	Message:   MessageNameAuthenticate,
 	Spec: Spec{
diff --git a/messages/hello.go b/messages/hello.go
index 245408b..9bd213b 100644
--- a/messages/hello.go
+++ b/messages/hello.go
@@ -10,7 +10,7 @@ const MessageTypeHello uint64 = 1
 const MessageNameHello = "HELLO"
 
 var helloValidationSpec = ValidationSpec{ //nolint:gochecknoglobals
-	MinLength: 2,
+	MinLength: 3,
 	MaxLength: 3,
 	Message:   MessageNameHello,
 	Spec: Spec{
-- 
2.43.0


From d7a141a41b5f4419c2b3819f385118b3eed7c9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:35 +0000
Subject: [PATCH 26/43] fix: messages: an ABORT with kwargs only must carry an
 empty args list

---
 messages/abort.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages/abort.go b/messages/abort.go
index e3dfd86..2fca397 100644
--- a/messages/abort.go
+++ b/messages/abort.go
@@ -95,7 +95,7 @@ func (a *Abort) Marshal() []any {
 
 	if a.KwArgs() != nil {
 		if a.Args() == nil {
-			payload = append(payload, a.Args())
+			payload = append(payload, []any{})
 		}
 
 		payload = append(payload, a.KwArgs())
-- 
2.43.0


From d95ce834b58220c79d0bc6ed87631c0ca1718feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:18 +0000
Subject: [PATCH 27/43] fix: messages: CHALLENGE and WELCOME never carry a null
 dict

---
 messages/challenge.go | 4 ++++
 messages/welcome.go   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/messages/challenge.go b/messages/challenge.go
index 60d354f..61f2340 100644
--- a/messages/challenge.go
+++ b/messages/challenge.go
@@ -42,6 +42,10 @@ func NewChallengeWithFields(fields ChallengeFields) *Challenge {
 }
 
 func NewChallenge(authMethod string, extra map[string]any) *Challenge {
+	if extra == nil {
+		extra = make(map[string]any)
+	}
+
 	return &Challenge{ChallengeFields: &challengeFields{authMethod: authMethod, extra: extra}}
 }
 
diff --git a/messages/welcome.go b/messages/welcome.go
index a22bc83..fe26505 100644
--- a/messages/welcome.go
+++ b/messages/welcome.go
@@ -38,6 +38,10 @@ type Welcome struct {
 }
 
 func NewWelcome(sessionID uint64, details map[string]any) *Welcome {
+	if details == nil {
+		details = make(map[string]any)
+	}
+
 	return &Welcome{WelcomeFields: &welcomeFields{sessionID: sessionID, details: details}}
 }
 
-- 
2.43.0


From 972562b396bce1cb477b2c3ae113b27ab4e10eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:20 +0000
Subject: [PATCH 28/43] fix: messages: a RESULT with payload serializer 0 is
 still a binary payload

---
 messages/result.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/messages/result.go b/messages/result.go
index 25980dc..1b5f082 100644
--- a/messages/result.go
+++ b/messages/result.go
@@ -54,7 +54,7 @@ func (e *resultFields) KwArgs() map[string]any {
 }
 
 func (e *resultFields) PayloadIsBinary() bool {
-	return e.serializer != 0
+	return e.binary
 }
 
 func (e *resultFields) Payload() []byte {
-- 
2.43.0


From b75dfe7e9d7cfef2e75c6a09204a93a2bceb23dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 29/43] fix: rawsocket: a message header that is not 4 bytes is
 an error, not a crash

---
 transports/rawsocket.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transports/rawsocket.go b/transports/rawsocket.go
index 149d69d..1b1ca6a 100644
--- a/transports/rawsocket.go
+++ b/transports/rawsocket.go
@@ -106,6 +106,10 @@ func SendMessageHeader(header *MessageHeader) []byte {
 }
 
 func ReceiveMessageHeader(data []byte) (*MessageHeader, error) {
+	if len(data) != 4 {
+		return nil, fmt.Errorf("expected 4 bytes for message header, got %d", len(data))
+	}
+
 	return NewMessageHeader(Message(data[0]), BytesToInt(data[1:])), nil
 }
 
-- 
2.43.0


From 1dae588dacbeadfb91b257f148333d5d069d2ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:21 +0000
Subject: [PATCH 30/43] fix: rawsocket: a handshake with a non-positive message
 size is an error, not a crash

---
 transports/rawsocket.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transports/rawsocket.go b/transports/rawsocket.go
index 1b1ca6a..dff0e9c 100644
--- a/transports/rawsocket.go
+++ b/transports/rawsocket.go
@@ -48,6 +48,10 @@ func SendHandshake(hs *Handshake) ([]byte, error) {
 		return nil, errors.New("maxMessageSize must not be more than 16 megabytes")
 	}
 
+	if hs.MaxMessageSize() <= 0 {
+		return nil, errors.New("maxMessageSize must be a power of 2 and >= 512")
+	}
+
 	log2 := int(math.Log2(float64(hs.MaxMessageSize())))
 	if (1<<log2) != hs.MaxMessageSize() || log2 < 9 {
 		return nil, errors.New("maxMessageSize must be a power of 2 and >= 512")
-- 
2.43.0


From 58a6af82290425c855767af6443cab78ccc5755b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 31/43] fix: serializers: decode the empty payload that an
 empty call encodes to

---
 serializers/payload.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/serializers/payload.go b/serializers/payload.go
index 1029194..d7c3ace 100644
--- a/serializers/payload.go
+++ b/serializers/payload.go
@@ -64,6 +64,10 @@ func CBOREncodePayload(args []any, kwargs map[string]any) ([]byte, error) {
 }
 
 func CBORDecodePayload(b []byte) ([]any, map[string]any, error) {
+	if len(b) == 0 {
+		return nil, nil, nil
+	}
+
 	var arr []any
 	if err := cborEncoder.Unmarshal(b, &arr); err != nil {
 		return nil, nil, err
@@ -82,6 +86,10 @@ func MsgPackEncodePayload(args []any, kwargs map[string]any) ([]byte, error) {
 }
 
 func MsgPackDecodePayload(b []byte) ([]any, map[string]any, error) {
+	if len(b) == 0 {
+		return nil, nil, nil
+	}
+
 	var arr []any
 	if err := msgpack.Unmarshal(b, &arr); err != nil {
 		return nil, nil, err
@@ -100,6 +108,10 @@ func JSONEncodePayload(args []any, kwargs map[string]any) ([]byte, error) {
 }
 
 func JSONDecodePayload(b []byte) ([]any, map[string]any, error) {
+	if len(b) == 0 {
+		return nil, nil, nil
+	}
+
 	var arr []any
 	if err := json.Unmarshal(b, &arr); err != nil {
 		return nil, nil, err
-- 
2.43.0


From 06072f756bd8454e281afa1ed475ceefd47213a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 32/43] fix: serializers: DecodeCBOR must not crash on short
 payloads and must decode what EncodeCBOR encodes

---
 serializers/cbor.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/serializers/cbor.go b/serializers/cbor.go
index a0c8a06..bbb31cc 100644
--- a/serializers/cbor.go
+++ b/serializers/cbor.go
@@ -64,13 +64,17 @@ func DecodeCBOR(data []byte) ([]any, map[string]any, error) {
 		return nil, nil, fmt.Errorf("failed to unmarshal cbor payload: %w", err)
 	}
 
+	if len(payload) != 2 {
+		return nil, nil, fmt.Errorf("invalid cbor payload: expected 2 elements, got %d", len(payload))
+	}
+
 	args, ok := payload[0].([]any)
-	if !ok {
+	if !ok && payload[0] != nil {
 		return nil, nil, fmt.Errorf("invalid args type: %T", payload[0])
 	}
 
 	kwargs, ok := payload[1].(map[string]any)
-	if !ok {
+	if !ok && payload[1] != nil {
 		return nil, nil, fmt.Errorf("invalid kwargs type: %T", payload[1])
 	}
 
-- 
2.43.0


From d220b4a4367b7cacea155ffe6ab04f6317afbe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 33/43] fix: util: accept int16, which msgpack decodes small
 IDs to

---
 util/util.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/util.go b/util/util.go
index f09eba5..2d0d54b 100644
--- a/util/util.go
+++ b/util/util.go
@@ -59,6 +59,8 @@ func AsUInt64(i any) (uint64, bool) {
 		return uint64(v), true // #nosec
 	case int8:
 		return uint64(v), true // #nosec
+	case int16:
+		return uint64(v), true // #nosec
 	case int32:
 		return uint64(v), true // #nosec
 	case uint:
@@ -90,6 +92,8 @@ func AsFloat64(v interface{}) (float64, bool) {
 		return float64(v), true
 	case int8:
 		return float64(v), true
+	case int16:
+		return float64(v), true
 	case int32:
 		return float64(v), true
 	case uint:
-- 
2.43.0


From b72ea52b5c8c0ce70a2191f83069efa5dec71502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 34/43] fix: serializers: a short msgpack frame must not
 exhaust the router's memory or stack

---
 serializers/msgpack.go | 66 +++++++++++++++++++++++++++++++++++++++++-
 serializers/payload.go |  2 +-
 2 files changed, 66 insertions(+), 2 deletions(-)

diff --git a/serializers/msgpack.go b/serializers/msgpack.go
index d52d452..5d82c82 100644
--- a/serializers/msgpack.go
+++ b/serializers/msgpack.go
@@ -1,13 +1,19 @@
 package serializers
 
 import (
+	"bytes"
+	"errors"
+
 	"github.com/vmihailenco/msgpack/v5"
+	"github.com/vmihailenco/msgpack/v5/msgpcode"
 
 	"github.com/xconnio/wampproto-go/messages"
 )
 
 const MsgPackSerializerID = 2
 
+const msgPackMaxDepth = 10000
+
 type MsgPackSerializer struct{}
 
 func (m *MsgPackSerializer) Serialize(message messages.Message) ([]byte, error) {
@@ -16,7 +22,7 @@ func (m *MsgPackSerializer) Serialize(message messages.Message) ([]byte, error)
 
 func (m *MsgPackSerializer) Deserialize(payload []byte) (messages.Message, error) {
 	var msgRaw []any
-	if err := msgpack.Unmarshal(payload, &msgRaw); err != nil {
+	if err := unmarshalMsgPack(payload, &msgRaw); err != nil {
 		return nil, err
 	}
 
@@ -35,3 +41,61 @@ func (m *MsgPackSerializer) Deserialize(payload []byte) (messages.Message, error
 func (m *MsgPackSerializer) Static() bool {
 	return false
 }
+
+func unmarshalMsgPack(payload []byte, value any) error {
+	if err := checkMsgPack(payload); err != nil {
+		return err
+	}
+
+	return msgpack.Unmarshal(payload, value)
+}
+
+// checkMsgPack rejects payloads that nest too deep or that announce more elements than
+// they have bytes for, the decoder recurses and allocates for these without any limit.
+func checkMsgPack(payload []byte) error {
+	reader := bytes.NewReader(payload)
+	decoder := msgpack.NewDecoder(reader)
+
+	// number of values left to read in each open array or map.
+	open := []int{1}
+	for len(open) > 0 {
+		last := len(open) - 1
+		if open[last] == 0 {
+			open = open[:last]
+			continue
+		}
+		open[last]--
+
+		code, err := decoder.PeekCode()
+		if err != nil {
+			return err
+		}
+
+		var count int
+		switch {
+		case msgpcode.IsFixedArray(code), code == msgpcode.Array16, code == msgpcode.Array32:
+			count, err = decoder.DecodeArrayLen()
+		case msgpcode.IsFixedMap(code), code == msgpcode.Map16, code == msgpcode.Map32:
+			count, err = decoder.DecodeMapLen()
+			count *= 2
+		default:
+			err = decoder.Skip()
+		}
+		if err != nil {
+			return err
+		}
+
+		if count > reader.Len() {
+			return errors.New("msgpack: truncated array or map")
+		}
+
+		if count > 0 {
+			if len(open) > msgPackMaxDepth {
+				return errors.New("msgpack: exceeded max depth")
+			}
+			open = append(open, count)
+		}
+	}
+
+	return nil
+}
diff --git a/serializers/payload.go b/serializers/payload.go
index d7c3ace..8d48f6f 100644
--- a/serializers/payload.go
+++ b/serializers/payload.go
@@ -91,7 +91,7 @@ func MsgPackDecodePayload(b []byte) ([]any, map[string]any, error) {
 	}
 
 	var arr []any
-	if err := msgpack.Unmarshal(b, &arr); err != nil {
+	if err := unmarshalMsgPack(b, &arr); err != nil {
 		return nil, nil, err
 	}
 
-- 
2.43.0


From 3a1111ea0be2fec0a0d0f85d10eec740f3a30001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:53 +0000
Subject: [PATCH 35/43] fix: auth: a WAMP-CRA challenge with an absurd keylen
 must not crash the client

---
 auth/wampcra.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/auth/wampcra.go b/auth/wampcra.go
index 5452db2..6e845fb 100644
--- a/auth/wampcra.go
+++ b/auth/wampcra.go
@@ -16,6 +16,8 @@ import (
 
 const MethodCRA = "wampcra"
 
+const maxCRAKeyLength = 1 << 16
+
 type wampcraAuthenticator struct {
 	authID    string
 	authExtra map[string]any
@@ -57,6 +59,9 @@ func (a *wampcraAuthenticator) Authenticate(challenge messages.Challenge) (*mess
 		// If salting info give, then compute a derived key using PBKDF2.
 		iters, _ := util.AsInt(challenge.Extra()["iterations"])
 		keylen, _ := util.AsInt(challenge.Extra()["keylen"])
+		if keylen < 0 || keylen > maxCRAKeyLength {
+			return nil, fmt.Errorf("invalid keylen %d in challenge", keylen)
+		}
 
 		rawSecret = DeriveWAMPCRAKey(saltStr, a.secret, iters, keylen)
 	} else {
-- 
2.43.0


From e37a65b58385e21e2afa9a2c77564ba321c5571c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:54 +0000
Subject: [PATCH 36/43] fix: auth: a cryptosign private key of the wrong length
 is an error, not a crash

---
 auth/cryptosign.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/auth/cryptosign.go b/auth/cryptosign.go
index 4e62fce..725f173 100644
--- a/auth/cryptosign.go
+++ b/auth/cryptosign.go
@@ -25,7 +25,7 @@ func NewCryptoSignAuthenticator(authID string, privateKeyHex string,
 	authExtra map[string]any) (ClientAuthenticator, error) {
 
 	privateKeyRaw, err := hex.DecodeString(privateKeyHex)
-	if err != nil {
+	if err != nil || len(privateKeyRaw) != ed25519.SeedSize {
 		return nil, errors.New("invalid private key")
 	}
 
-- 
2.43.0


From 0b21c4dc2fdae97ceb085076e65cec80d9b97e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 37/43] fix: session: a callee keeps receiving the chunks of an
 open progressive call after it unregistered

---
 session.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/session.go b/session.go
index 70abcd0..54f90d7 100644
--- a/session.go
+++ b/session.go
@@ -166,6 +166,11 @@ func (w *Session) ReceiveMessage(msg messages.Message) (messages.Message, error)
 	case messages.MessageTypeInvocation:
 		invocation := msg.(*messages.Invocation)
 		_, exists := w.registrations.Load(invocation.RegistrationID())
+		if !exists {
+			// an invocation that started before the registration ended may still continue.
+			_, exists = w.invocationRequests.Load(invocation.RequestID())
+		}
+
 		if !exists {
 			return nil, fmt.Errorf("received INVOCATION for invalid registrationID")
 		}
-- 
2.43.0


From 06f9bbf3cbfcdd87cd3d3a79d70eea421896b92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:44 +0000
Subject: [PATCH 38/43] fix: rawsocket: a refused handshake must not be taken
 for an accepted one

---
 transports/rawsocket.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/transports/rawsocket.go b/transports/rawsocket.go
index dff0e9c..cb42b6b 100644
--- a/transports/rawsocket.go
+++ b/transports/rawsocket.go
@@ -73,6 +73,10 @@ func ReceiveHandshake(data []byte) (*Handshake, error) {
 	}
 
 	serializer := data[1] & 0x0F
+	if serializer == 0 {
+		return nil, fmt.Errorf("handshake refused with error code %d", data[1]>>4)
+	}
+
 	sizeShift := (data[1] >> 4) + 9
 	maxMessageSize := 1 << sizeShift
 
-- 
2.43.0


From 57887a81a876f15c4fe5ebe275fe079edbb19da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:06 +0000
Subject: [PATCH 39/43] fix: numbers that are not IDs are not taken for one

A negative, fractional or too large number in the place of an ID or of the
message type was silently turned into some other ID (1.5 into 1, -1 into
2^64-1), so that a malformed message acted on a request or registration it
does not name.
---
 messages/validator.go  | 23 ++++++++++++++++++++++-
 serializers/helpers.go |  7 +++++--
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/messages/validator.go b/messages/validator.go
index b0f5169..d024921 100644
--- a/messages/validator.go
+++ b/messages/validator.go
@@ -3,6 +3,8 @@ package messages
 import (
 	"errors"
 	"fmt"
+	"math"
+	"reflect"
 
 	"github.com/xconnio/wampproto-go/util"
 )
@@ -62,8 +64,27 @@ func sanityCheck(wampMsg []any, minLength, maxLength int) error {
 	return nil
 }
 
+// AsID returns the ID (or message type) i stands for. A number that is negative, has a
+// fraction or is too large for 64 bits isn't one.
+func AsID(i any) (uint64, bool) {
+	id, ok := util.AsUInt64(i)
+	if !ok {
+		return 0, false
+	}
+
+	switch v := reflect.ValueOf(i); v.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return id, v.Int() >= 0
+	case reflect.Float32, reflect.Float64:
+		f := v.Float()
+		return id, f >= 0 && f < math.MaxUint64 && f == math.Trunc(f)
+	default:
+		return id, true
+	}
+}
+
 func validateID(wampMsg []any, index int) (uint64, error) {
-	item, ok := util.AsUInt64(wampMsg[index])
+	item, ok := AsID(wampMsg[index])
 	if !ok {
 		return 0, fmt.Errorf(errString, index, "uint64", wampMsg[index])
 	}
diff --git a/serializers/helpers.go b/serializers/helpers.go
index d08e5e6..d5a7a62 100644
--- a/serializers/helpers.go
+++ b/serializers/helpers.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 
 	"github.com/xconnio/wampproto-go/messages"
-	"github.com/xconnio/wampproto-go/util"
 )
 
 func ToMessage(wampMsg []any) (messages.Message, error) {
@@ -13,7 +12,11 @@ func ToMessage(wampMsg []any) (messages.Message, error) {
 		return nil, errors.New("invalid message: empty")
 	}
 
-	messageType, _ := util.AsUInt64(wampMsg[0])
+	messageType, ok := messages.AsID(wampMsg[0])
+	if !ok {
+		return nil, fmt.Errorf("invalid message type %v", wampMsg[0])
+	}
+
 	var msg messages.Message
 	switch messageType {
 	case messages.MessageTypeAbort:
-- 
2.43.0


From 5bfdfd33c69f234fe9a92b821b159c7e41401b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:38 +0000
Subject: [PATCH 40/43] fix: msgpack: bytes after the end of a message are
 refused

A MessagePack frame with anything after its message, such as a second message, was
taken for the first one and the rest was dropped; JSON and CBOR refuse such frames.
---
 serializers/msgpack.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/serializers/msgpack.go b/serializers/msgpack.go
index 5d82c82..e30d748 100644
--- a/serializers/msgpack.go
+++ b/serializers/msgpack.go
@@ -51,7 +51,8 @@ func unmarshalMsgPack(payload []byte, value any) error {
 }
 
 // checkMsgPack rejects payloads that nest too deep or that announce more elements than
-// they have bytes for, the decoder recurses and allocates for these without any limit.
+// they have bytes for, the decoder recurses and allocates for these without any limit. It
+// also rejects bytes after the end of the value, which the decoder ignores.
 func checkMsgPack(payload []byte) error {
 	reader := bytes.NewReader(payload)
 	decoder := msgpack.NewDecoder(reader)
@@ -97,5 +98,9 @@ func checkMsgPack(payload []byte) error {
 		}
 	}
 
+	if reader.Len() > 0 {
+		return errors.New("msgpack: extraneous data after the value")
+	}
+
 	return nil
 }
-- 
2.43.0


From faa647f8efb6ab428c6d2dafda45a79fb1741943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:25 +0000
Subject: [PATCH 41/43] fix: messages: HELLO never says null where a list or
 dictionary belongs

A HELLO made without roles or authentication methods went out with null in their
places, which other implementations refuse.
---
 messages/hello.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/messages/hello.go b/messages/hello.go
index 9bd213b..033aea9 100644
--- a/messages/hello.go
+++ b/messages/hello.go
@@ -118,11 +118,21 @@ func (h *Hello) Marshal() []any {
 		authExtra = h.AuthExtra()
 	}
 
+	authMethods := []string{}
+	if h.AuthMethods() != nil {
+		authMethods = h.AuthMethods()
+	}
+
+	roles := map[string]any{}
+	if h.Roles() != nil {
+		roles = h.Roles()
+	}
+
 	details := map[string]any{
 		"authid":      h.AuthID(),
-		"authmethods": h.AuthMethods(),
+		"authmethods": authMethods,
 		"authextra":   authExtra,
-		"roles":       h.Roles(),
+		"roles":       roles,
 	}
 
 	return []any{MessageTypeHello, h.Realm(), details}
-- 
2.43.0


From 56de7091500f552487f3dde946be0caa8f9938f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:59 +0000
Subject: [PATCH 42/43] fix: a client made a second HELLO in the middle of a
 handshake, and after it

---
 joiner.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/joiner.go b/joiner.go
index 71396b3..70bf17e 100644
--- a/joiner.go
+++ b/joiner.go
@@ -70,6 +70,10 @@ func NewJoiner(realm string, serializer serializers.Serializer, authenticator au
 }
 
 func (j *Joiner) SendHello() ([]byte, error) {
+	if j.state != joinerStateNone {
+		return nil, fmt.Errorf("state must be %d when sending HELLO but was %d", joinerStateNone, j.state)
+	}
+
 	hello := messages.NewHello(
 		j.realm,
 		j.authenticator.AuthID(),
-- 
2.43.0


From 99189c4a135be83620eedfd64b9fd1a3d8d5e1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:19 +0000
Subject: [PATCH 43/43] fix: time stamps were wrong in time zones with seconds
 in their offset

---
 auth/iso8601.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/auth/iso8601.go b/auth/iso8601.go
index 153e6b8..30eaf36 100644
--- a/auth/iso8601.go
+++ b/auth/iso8601.go
@@ -7,8 +7,14 @@ import (
 
 // ISO8601 returns the given time as an ISO8601 formatted string.
 func ISO8601(t time.Time) string {
-	tstr := t.Format("2006-01-02T15:04:05")
 	_, zoneOffset := t.Zone()
+	if seconds := zoneOffset % 60; seconds != 0 {
+		// an ISO8601 offset has hours and minutes only.
+		zoneOffset -= seconds
+		t = t.In(time.FixedZone("", zoneOffset))
+	}
+
+	tstr := t.Format("2006-01-02T15:04:05")
 	if zoneOffset == 0 {
 		return fmt.Sprintf("%sZ", tstr)
 	}
-- 
2.43.0

