From 85e0efe722c056e181a51cd1117820d78fd00229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:57 +0000
Subject: [PATCH 01/37] fix: threshold signatures need Threshold distinct
 signers

ThresholdVerify accepted aggregates made by fewer than Threshold entities
(including one entity listed several times).
---
 crypto/crypto_config.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crypto/crypto_config.go b/crypto/crypto_config.go
index ad6a345..167fc9b 100644
--- a/crypto/crypto_config.go
+++ b/crypto/crypto_config.go
@@ -74,6 +74,17 @@ func (c *CryptoConfig) ThresholdAggregate(sigs []SigFragment) (ThresholdSig, err
 // Uses the keys stored in the CryptoConfig struct to verify the signature.
 func (c *CryptoConfig) ThresholdVerify(msg string, sig ThresholdSig) error {
 	if c.ThresholdScheme == "bls" {
+		// The aggregate only counts as a threshold signature if at least Threshold different entities made it.
+		signers := make(map[CTngID]bool)
+		for _, id := range sig.IDs {
+			if signers[id] {
+				return errors.New("Threshold Signature lists a signer twice")
+			}
+			signers[id] = true
+		}
+		if len(sig.IDs) < c.Threshold {
+			return errors.New("Threshold Signature has too few signers")
+		}
 		if sig.Verify(msg, &c.ThresholdPublicMap) {
 			return nil
 		} else {
-- 
2.43.0


From a934c5a239ddccf9f71caa54b73b5a1b023c29ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:57 +0000
Subject: [PATCH 02/37] fix: reject undecodable BLS signatures instead of using
 them

A FULL object with a malformed signature made Verify dereference a nil signature.
---
 definition/Verify.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/definition/Verify.go b/definition/Verify.go
index 957beda..9d11460 100644
--- a/definition/Verify.go
+++ b/definition/Verify.go
@@ -41,8 +41,11 @@ func Verify_CON(g Gossip_object, c *crypto.CryptoConfig) error {
 // verifies signature fragments match with payload
 func Verify_PayloadFrag(g Gossip_object, c *crypto.CryptoConfig) error {
 	if g.Signature[0] != "" && g.Payload[0] != "" {
-		sig, _ := crypto.SigFragmentFromString(g.Signature[0])
-		err := c.FragmentVerify(g.Payload[0]+g.Payload[1]+g.Payload[2], sig)
+		sig, err := crypto.SigFragmentFromString(g.Signature[0])
+		if err != nil {
+			return errors.New(No_Sig_Match)
+		}
+		err = c.FragmentVerify(g.Payload[0]+g.Payload[1]+g.Payload[2], sig)
 		if err != nil {
 			return errors.New(No_Sig_Match)
 		}
@@ -55,8 +58,11 @@ func Verify_PayloadFrag(g Gossip_object, c *crypto.CryptoConfig) error {
 // verifies threshold signatures match payload
 func Verify_PayloadThreshold(g Gossip_object, c *crypto.CryptoConfig) error {
 	if g.Signature[0] != "" && g.Payload[0] != "" {
-		sig, _ := crypto.ThresholdSigFromString(g.Signature[0])
-		err := c.ThresholdVerify(g.Payload[0]+g.Payload[1]+g.Payload[2], sig)
+		sig, err := crypto.ThresholdSigFromString(g.Signature[0])
+		if err != nil {
+			return errors.New(No_Sig_Match)
+		}
+		err = c.ThresholdVerify(g.Payload[0]+g.Payload[1]+g.Payload[2], sig)
 		if err != nil {
 			return errors.New(No_Sig_Match)
 		}
-- 
2.43.0


From 37463b5629b0c080b96b83f5229073734f4120e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:57 +0000
Subject: [PATCH 03/37] fix: bind the signer named by an object to its
 signature

Any registered entity could sign an STH, a revocation or a fragment in the name of another one.
---
 definition/Verify.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/definition/Verify.go b/definition/Verify.go
index 9d11460..b97d501 100644
--- a/definition/Verify.go
+++ b/definition/Verify.go
@@ -45,6 +45,10 @@ func Verify_PayloadFrag(g Gossip_object, c *crypto.CryptoConfig) error {
 		if err != nil {
 			return errors.New(No_Sig_Match)
 		}
+		// the fragment must be made by the entity the object names as its signer
+		if sig.ID.String() != g.Signer {
+			return errors.New(Mislabel)
+		}
 		err = c.FragmentVerify(g.Payload[0]+g.Payload[1]+g.Payload[2], sig)
 		if err != nil {
 			return errors.New(No_Sig_Match)
@@ -79,6 +83,14 @@ func Verify_RSAPayload(g Gossip_object, c *crypto.CryptoConfig) error {
 		if err != nil {
 			return errors.New(No_Sig_Match)
 		}
+		// the object must be signed by the entity it names as its signer
+		if sig.ID.String() != g.Signer {
+			return errors.New(Mislabel)
+		}
+		// an STH or a revocation is a statement of an entity about itself
+		if g.Type != ACC_INIT && g.Payload[0] != g.Signer {
+			return errors.New(Mislabel)
+		}
 		return c.Verify([]byte(g.Payload[0]+g.Payload[1]+g.Payload[2]), sig)
 
 	} else {
-- 
2.43.0


From 219af20cd65593192dfb622f8675301af8a9aee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:57 +0000
Subject: [PATCH 04/37] fix: a conflict PoM needs two different statements of
 the accused

Verify_CON accepted the same statement twice, and statements signed by
anybody, so every entity could be framed and blacklisted.
---
 definition/Verify.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/definition/Verify.go b/definition/Verify.go
index b97d501..f70d3d5 100644
--- a/definition/Verify.go
+++ b/definition/Verify.go
@@ -24,6 +24,10 @@ func Verify_CON(g Gossip_object, c *crypto.CryptoConfig) error {
 	rsaSig2, sigerr2 := crypto.RSASigFromString(g.Signature[1])
 	// Verify the signatures were made successfully
 	if sigerr1 == nil && sigerr2 == nil {
+		// A conflict is two different statements made by the accused entity itself
+		if rsaSig1.ID.String() != g.Payload[0] || rsaSig2.ID.String() != g.Payload[0] || g.Payload[1] == g.Payload[2] {
+			return errors.New(Mislabel)
+		}
 		err1 := c.Verify([]byte(g.Payload[1]), rsaSig1)
 		err2 := c.Verify([]byte(g.Payload[2]), rsaSig2)
 		//fmt.Print(util.YELLOW, err1, err2, util.RESET)
-- 
2.43.0


From 45ca80cc537bfc3dfe51cbeb82e0cdbbf58ee4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:01 +0000
Subject: [PATCH 05/37] fix: count one valid fragment per signer towards a full
 object

---
 gossiper/Interface.go       | 41 ++++++++++++++++++++++++++-----------
 gossiper/gossiper_server.go |  4 ++--
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/gossiper/Interface.go b/gossiper/Interface.go
index e63eb06..bf8d3bb 100644
--- a/gossiper/Interface.go
+++ b/gossiper/Interface.go
@@ -190,18 +190,8 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 			ctx.Converge_time_init = util.GetCurrentSecond()
 			fmt.Println(util.BLUE, "INIT Converge time: ", ctx.Converge_time_init, util.RESET)
 		}
-	case definition.STH_FRAG:
-		ctx.Gossip_object_storage.STH_FRAG_LOCK.Lock()
-		ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()] = append(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()], gossip_object)
-		ctx.Gossip_object_storage.STH_FRAG_LOCK.Unlock()
-	case definition.REV_FRAG:
-		ctx.Gossip_object_storage.REV_FRAG_LOCK.Lock()
-		ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()] = append(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()], gossip_object)
-		ctx.Gossip_object_storage.REV_FRAG_LOCK.Unlock()
-	case definition.ACC_FRAG:
-		ctx.Gossip_object_storage.ACC_FRAG_LOCK.Lock()
-		ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()] = append(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()], gossip_object)
-		ctx.Gossip_object_storage.ACC_FRAG_LOCK.Unlock()
+	case definition.STH_FRAG, definition.REV_FRAG, definition.ACC_FRAG:
+		return ctx.Read_and_Store_If_Needed(gossip_object) < ctx.Gossiper_crypto_config.Threshold
 	case definition.STH_FULL:
 		ctx.Gossip_object_storage.STH_FULL_LOCK.Lock()
 		ctx.Gossip_object_storage.STH_FULL[gossip_object.GetID()] = gossip_object
@@ -225,10 +215,20 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 }
 
 func (ctx *GossiperContext) Read_and_Store_If_Needed(gossip_object definition.Gossip_object) int {
+	// Only valid fragments count. Anything that is not stored here returns a count that
+	// neither completes the full object nor gets the fragment forwarded.
+	err := gossip_object.Verify(ctx.Gossiper_crypto_config)
+	if err != nil {
+		fmt.Println(util.RED, "Invalid object "+definition.TypeString(gossip_object.Type)+" signed by "+gossip_object.Signer+".", util.RESET)
+		return ctx.Gossiper_crypto_config.Threshold
+	}
 	switch gossip_object.Type {
 	case definition.STH_FRAG:
 		ctx.Gossip_object_storage.STH_FRAG_LOCK.Lock()
 		defer ctx.Gossip_object_storage.STH_FRAG_LOCK.Unlock()
+		if hasFragmentFrom(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()], gossip_object.Signer) {
+			return ctx.Gossiper_crypto_config.Threshold
+		}
 		before := len(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()])
 		if len(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()]) < ctx.Gossiper_crypto_config.Threshold {
 			ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()] = append(ctx.Gossip_object_storage.STH_FRAG[gossip_object.GetID()], gossip_object)
@@ -237,6 +237,9 @@ func (ctx *GossiperContext) Read_and_Store_If_Needed(gossip_object definition.Go
 	case definition.REV_FRAG:
 		ctx.Gossip_object_storage.REV_FRAG_LOCK.Lock()
 		defer ctx.Gossip_object_storage.REV_FRAG_LOCK.Unlock()
+		if hasFragmentFrom(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()], gossip_object.Signer) {
+			return ctx.Gossiper_crypto_config.Threshold
+		}
 		before := len(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()])
 		if len(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()]) < ctx.Gossiper_crypto_config.Threshold {
 			ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()] = append(ctx.Gossip_object_storage.REV_FRAG[gossip_object.GetID()], gossip_object)
@@ -245,6 +248,9 @@ func (ctx *GossiperContext) Read_and_Store_If_Needed(gossip_object definition.Go
 	case definition.ACC_FRAG:
 		ctx.Gossip_object_storage.ACC_FRAG_LOCK.Lock()
 		defer ctx.Gossip_object_storage.ACC_FRAG_LOCK.Unlock()
+		if hasFragmentFrom(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()], gossip_object.Signer) {
+			return ctx.Gossiper_crypto_config.Threshold
+		}
 		before := len(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()])
 		if len(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()]) < ctx.Gossiper_crypto_config.Threshold {
 			ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()] = append(ctx.Gossip_object_storage.ACC_FRAG[gossip_object.GetID()], gossip_object)
@@ -254,6 +260,17 @@ func (ctx *GossiperContext) Read_and_Store_If_Needed(gossip_object definition.Go
 	return 0
 
 }
+
+// hasFragmentFrom tells whether the signer already contributed one of the fragments.
+func hasFragmentFrom(fragments []definition.Gossip_object, signer string) bool {
+	for _, v := range fragments {
+		if v.Signer == signer {
+			return true
+		}
+	}
+	return false
+}
+
 func (ctx *GossiperContext) DupCheckInLock(gossip_object definition.Gossip_object) bool {
 	switch gossip_object.Type {
 	case definition.STH_INIT:
diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index 3fef5f4..b1507a5 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -349,8 +349,8 @@ func Handle_OBJ_FRAG(c *GossiperContext, gossip_obj definition.Gossip_object) {
 		itemcount = c.Read_and_Store_If_Needed(gossip_obj)
 	}
 	//fmt.Println(itemcount)
-	if itemcount == c.Gossiper_crypto_config.Threshold-1 {
-		itemlist := c.GetObjectList(gossip_obj.GetID(), gossip_obj.Type)
+	itemlist := c.GetObjectList(gossip_obj.GetID(), gossip_obj.Type)
+	if itemcount == c.Gossiper_crypto_config.Threshold-1 && len(itemlist) >= c.Gossiper_crypto_config.Threshold {
 		target_type := gossip_obj.GetTargetType()
 		obj := c.Generate_Gossip_Object_FULL(itemlist, target_type)
 		fmt.Println(util.BLUE, "Generated full object: ", obj.Type, util.RESET)
-- 
2.43.0


From dac6ed8d16dea6a2f3a2505560c7b2cb14fb8394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:03 +0000
Subject: [PATCH 06/37] fix: do not report a full object to the monitor that
 failed verification

---
 gossiper/gossiper_server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index b1507a5..937367c 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -368,7 +368,10 @@ func Handle_OBJ_FULL(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	}
 	icount, _ := c.GetItemCount(gossip_obj.GetID(), gossip_obj.Type)
 	if icount == 0 {
-		c.Store(gossip_obj)
+		proceed := c.Store(gossip_obj)
+		if !proceed {
+			return
+		}
 		c.Send_to_Monitor(gossip_obj)
 	}
 	if c.IsConvergent() {
-- 
2.43.0


From 354ccb3e24a01c1fcbf03ea9ff646031a15af9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:26 +0000
Subject: [PATCH 07/37] fix: a second statement for the same id never replaces
 the first unnoticed

---
 gossiper/Interface.go       |  8 ++++----
 gossiper/gossiper_server.go | 10 ++++++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/gossiper/Interface.go b/gossiper/Interface.go
index bf8d3bb..fdb9441 100644
--- a/gossiper/Interface.go
+++ b/gossiper/Interface.go
@@ -134,8 +134,8 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 	switch gossip_object.Type {
 	case definition.STH_INIT:
 		ctx.Gossip_object_storage.STH_INIT_LOCK.Lock()
-		// if it is a duplicate, ignore it
-		if ctx.DupCheckInLock(gossip_object) {
+		// never replace what we have: it is either a duplicate or one half of a conflict
+		if _, ok := ctx.Gossip_object_storage.STH_INIT[gossip_object.GetID()]; ok {
 			ctx.Gossip_object_storage.STH_INIT_LOCK.Unlock()
 			return false
 		}
@@ -147,8 +147,8 @@ func (ctx *GossiperContext) Store_gossip_object(gossip_object definition.Gossip_
 		}
 	case definition.REV_INIT:
 		ctx.Gossip_object_storage.REV_INIT_LOCK.Lock()
-		// if it is a duplicate, ignore it
-		if ctx.DupCheckInLock(gossip_object) {
+		// never replace what we have: it is either a duplicate or one half of a conflict
+		if _, ok := ctx.Gossip_object_storage.REV_INIT[gossip_object.GetID()]; ok {
 			ctx.Gossip_object_storage.REV_INIT_LOCK.Unlock()
 			return false
 		}
diff --git a/gossiper/gossiper_server.go b/gossiper/gossiper_server.go
index 937367c..07dad13 100644
--- a/gossiper/gossiper_server.go
+++ b/gossiper/gossiper_server.go
@@ -232,6 +232,11 @@ func Handle_STH_INIT(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	// if not malicious, we store the object
 	proceed := c.Store(gossip_obj)
 	if !proceed {
+		// a conflicting object may have been stored since we checked
+		if c.IsMalicious(gossip_obj) {
+			CON := c.Generate_CON_INIT(c.GetObject(gossip_obj.GetID(), gossip_obj.Type), gossip_obj)
+			Handle_Gossip_object(c, CON)
+		}
 		return
 	}
 	// we send the object to the gossipers
@@ -274,6 +279,11 @@ func Handle_REV_INIT(c *GossiperContext, gossip_obj definition.Gossip_object) {
 	// we send the object to the gossipers
 	proceed := c.Store(gossip_obj)
 	if !proceed {
+		// a conflicting object may have been stored since we checked
+		if c.IsMalicious(gossip_obj) {
+			CON := c.Generate_CON_INIT(c.GetObject(gossip_obj.GetID(), gossip_obj.Type), gossip_obj)
+			Handle_Gossip_object(c, CON)
+		}
 		return
 	}
 	c.Send_to_Gossipers(gossip_obj)
-- 
2.43.0


From f4b424eb6f8d83f06cd1401e5d8200344004b626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:42 +0000
Subject: [PATCH 08/37] fix: wipe and summarise the gossiper's stores under
 their locks

---
 gossiper/Interface.go | 108 +++++++++++++++++++++++++++++++-----------
 1 file changed, 80 insertions(+), 28 deletions(-)

diff --git a/gossiper/Interface.go b/gossiper/Interface.go
index fdb9441..dbea932 100644
--- a/gossiper/Interface.go
+++ b/gossiper/Interface.go
@@ -80,27 +80,51 @@ func (ctx *GossiperContext) GetREVrequested(gid definition.Gossip_ID) definition
 func (ctx *GossiperContext) Save() {
 	Period, _ := strconv.Atoi(util.GetCurrentPeriod())
 	g_log_entry := Gossiper_log_entry{
-		Period:                 Period,
-		Converge_time:          ctx.Converge_time,
-		Converge_time_init:     ctx.Converge_time_init,
-		Total_traffic_received: ctx.Total_traffic_received,
-		Total_traffic_sent:     ctx.Total_traffic_sent,
-		NUM_STH_INIT:           len(ctx.Gossip_object_storage.STH_INIT),
-		NUM_REV_INIT:           len(ctx.Gossip_object_storage.REV_INIT),
-		NUM_ACC_INIT:           len(ctx.Gossip_object_storage.ACC_INIT),
-		NUM_CON_INIT:           len(ctx.Gossip_object_storage.CON_INIT),
-		NUM_STH_FRAG:           0,
-		NUM_REV_FRAG:           0,
-		NUM_ACC_FRAG:           0,
-		NUM_STH_FULL:           len(ctx.Gossip_object_storage.STH_FULL),
-		NUM_REV_FULL:           len(ctx.Gossip_object_storage.REV_FULL),
-		NUM_ACC_FULL:           len(ctx.Gossip_object_storage.ACC_FULL),
-		NUM_BLACKLIST_PERM:     len(ctx.Gossip_blacklist.BLACKLIST_PERM),
-		Timerlist:              ctx.Timerlist,
+		Period:             Period,
+		Converge_time:      ctx.Converge_time,
+		Converge_time_init: ctx.Converge_time_init,
+		Timerlist:          ctx.Timerlist,
 	}
-	g_log_entry.NUM_STH_FRAG = countFragments(ctx.Gossip_object_storage.STH_FRAG)
-	g_log_entry.NUM_REV_FRAG = countFragments(ctx.Gossip_object_storage.REV_FRAG)
-	g_log_entry.NUM_ACC_FRAG = countFragments(ctx.Gossip_object_storage.ACC_FRAG)
+	ctx.Counter1_lock.Lock()
+	g_log_entry.Total_traffic_received = ctx.Total_traffic_received
+	ctx.Counter1_lock.Unlock()
+	ctx.Counter2_lock.Lock()
+	g_log_entry.Total_traffic_sent = ctx.Total_traffic_sent
+	ctx.Counter2_lock.Unlock()
+	storage := ctx.Gossip_object_storage
+	storage.STH_INIT_LOCK.RLock()
+	g_log_entry.NUM_STH_INIT = len(storage.STH_INIT)
+	storage.STH_INIT_LOCK.RUnlock()
+	storage.REV_INIT_LOCK.RLock()
+	g_log_entry.NUM_REV_INIT = len(storage.REV_INIT)
+	storage.REV_INIT_LOCK.RUnlock()
+	storage.ACC_INIT_LOCK.RLock()
+	g_log_entry.NUM_ACC_INIT = len(storage.ACC_INIT)
+	storage.ACC_INIT_LOCK.RUnlock()
+	storage.CON_INIT_LOCK.RLock()
+	g_log_entry.NUM_CON_INIT = len(storage.CON_INIT)
+	storage.CON_INIT_LOCK.RUnlock()
+	storage.STH_FRAG_LOCK.RLock()
+	g_log_entry.NUM_STH_FRAG = countFragments(storage.STH_FRAG)
+	storage.STH_FRAG_LOCK.RUnlock()
+	storage.REV_FRAG_LOCK.RLock()
+	g_log_entry.NUM_REV_FRAG = countFragments(storage.REV_FRAG)
+	storage.REV_FRAG_LOCK.RUnlock()
+	storage.ACC_FRAG_LOCK.RLock()
+	g_log_entry.NUM_ACC_FRAG = countFragments(storage.ACC_FRAG)
+	storage.ACC_FRAG_LOCK.RUnlock()
+	storage.STH_FULL_LOCK.RLock()
+	g_log_entry.NUM_STH_FULL = len(storage.STH_FULL)
+	storage.STH_FULL_LOCK.RUnlock()
+	storage.REV_FULL_LOCK.RLock()
+	g_log_entry.NUM_REV_FULL = len(storage.REV_FULL)
+	storage.REV_FULL_LOCK.RUnlock()
+	storage.ACC_FULL_LOCK.RLock()
+	g_log_entry.NUM_ACC_FULL = len(storage.ACC_FULL)
+	storage.ACC_FULL_LOCK.RUnlock()
+	ctx.Gossip_blacklist.BLACKLIST_PERM_LOCK.RLock()
+	g_log_entry.NUM_BLACKLIST_PERM = len(ctx.Gossip_blacklist.BLACKLIST_PERM)
+	ctx.Gossip_blacklist.BLACKLIST_PERM_LOCK.RUnlock()
 
 	// if not all entries are zero, log it
 	if g_log_entry.NUM_STH_INIT != 0 || g_log_entry.NUM_REV_INIT != 0 || g_log_entry.NUM_ACC_INIT != 0 || g_log_entry.NUM_CON_INIT != 0 ||
@@ -601,6 +625,8 @@ func (ctx *GossiperContext) IsConvergent() bool {
 	defer ctx.Gossip_object_storage.STH_FULL_LOCK.RUnlock()
 	ctx.Gossip_object_storage.ACC_FULL_LOCK.RLock()
 	defer ctx.Gossip_object_storage.ACC_FULL_LOCK.RUnlock()
+	ctx.Gossip_object_storage.CON_INIT_LOCK.RLock()
+	defer ctx.Gossip_object_storage.CON_INIT_LOCK.RUnlock()
 	count1 := len(ctx.Gossip_object_storage.REV_FULL)
 	count2 := len(ctx.Gossip_object_storage.STH_FULL)
 	count3 := len(ctx.Gossip_object_storage.ACC_FULL)
@@ -644,14 +670,40 @@ func (ctx *GossiperContext) IsMalicious(obj definition.Gossip_object) bool {
 }
 
 func (ctx *GossiperContext) WipeStorage() {
-	// clear all storage
-	CON_INIT := ctx.Gossip_object_storage.CON_INIT
-	*ctx.Gossip_object_storage = *InitializeGossipObjectStorage()
-	ctx.Gossip_object_storage.CON_INIT = CON_INIT
-	// clear all temperary blacklist
-	Blacklistperm := ctx.Gossip_blacklist.BLACKLIST_PERM
-	*ctx.Gossip_blacklist = *InitializeGossipBlacklist()
-	ctx.Gossip_blacklist.BLACKLIST_PERM = Blacklistperm
+	// clear all storage, except for the conflicts; handlers may be running, so every map is replaced under its lock
+	empty := InitializeGossipObjectStorage()
+	storage := ctx.Gossip_object_storage
+	storage.STH_INIT_LOCK.Lock()
+	storage.STH_INIT = empty.STH_INIT
+	storage.STH_INIT_LOCK.Unlock()
+	storage.REV_INIT_LOCK.Lock()
+	storage.REV_INIT = empty.REV_INIT
+	storage.REV_INIT_LOCK.Unlock()
+	storage.ACC_INIT_LOCK.Lock()
+	storage.ACC_INIT = empty.ACC_INIT
+	storage.ACC_INIT_LOCK.Unlock()
+	storage.STH_FRAG_LOCK.Lock()
+	storage.STH_FRAG = empty.STH_FRAG
+	storage.STH_FRAG_LOCK.Unlock()
+	storage.REV_FRAG_LOCK.Lock()
+	storage.REV_FRAG = empty.REV_FRAG
+	storage.REV_FRAG_LOCK.Unlock()
+	storage.ACC_FRAG_LOCK.Lock()
+	storage.ACC_FRAG = empty.ACC_FRAG
+	storage.ACC_FRAG_LOCK.Unlock()
+	storage.STH_FULL_LOCK.Lock()
+	storage.STH_FULL = empty.STH_FULL
+	storage.STH_FULL_LOCK.Unlock()
+	storage.REV_FULL_LOCK.Lock()
+	storage.REV_FULL = empty.REV_FULL
+	storage.REV_FULL_LOCK.Unlock()
+	storage.ACC_FULL_LOCK.Lock()
+	storage.ACC_FULL = empty.ACC_FULL
+	storage.ACC_FULL_LOCK.Unlock()
+	storage.REV_PAYLOAD_LOCK.Lock()
+	storage.REV_PAYLOAD = empty.REV_PAYLOAD
+	storage.REV_PAYLOAD_LOCK.Unlock()
+	// the blacklist is permanent
 	// clear all PoM counter and gossiper log
 }
 
-- 
2.43.0


From 8068f1aa26658d30ffe08d70ae270f2986dad032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:35 +0000
Subject: [PATCH 09/37] fix: client releases its database lock when an update
 is rejected

---
 client/client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/client.go b/client/client.go
index f8054fa..ae56bee 100644
--- a/client/client.go
+++ b/client/client.go
@@ -134,6 +134,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 			err := rev.Verify(ctx.Crypto)
 			if err != nil {
 				fmt.Println("REV verification failed")
+				ctx.CRV_DB_RWLock.Unlock()
 				return false
 			}
 		}
@@ -143,6 +144,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 		//verify SRH
 		if !ctx.VerifySRH(SRH, &DCRV, key, rev.Period) {
 			fmt.Println("SRH verification failed")
+			ctx.CRV_DB_RWLock.Unlock()
 			return false
 		}
 		//Update CRV
@@ -160,6 +162,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 			err := sth.Verify(ctx.Crypto)
 			if err != nil {
 				fmt.Println("sth verification failed")
+				ctx.STH_DB_RWLock.Unlock()
 				return false
 			}
 		}
@@ -168,6 +171,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 		err := json.Unmarshal(payload1, &STH_def)
 		if err != nil {
 			fmt.Println("sth unmarshal failed")
+			ctx.STH_DB_RWLock.Unlock()
 			return false
 		}
 		newrecord := STH_def.RootHash
@@ -184,6 +188,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 			err := pom.Verify(ctx.Crypto)
 			if err != nil {
 				fmt.Println("pom verification failed")
+				ctx.POM_DB_RWLock.Unlock()
 				return false
 			}
 		}
@@ -196,6 +201,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 			err := pom.Verify(ctx.Crypto)
 			if err != nil {
 				fmt.Println("pom verification failed")
+				ctx.POM_DB_RWLock.Unlock()
 				return false
 			}
 		}
-- 
2.43.0


From 96195eea50f56ea9509ef1883b877c19ba751353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:35 +0000
Subject: [PATCH 10/37] fix: client merges later revocation deltas into its CRV

---
 client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index ae56bee..0f1ef51 100644
--- a/client/client.go
+++ b/client/client.go
@@ -152,7 +152,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 		if _, ok := ctx.CRV_database[key]; !ok {
 			ctx.CRV_database[key] = &DCRV
 		} else {
-			ctx.CRV_database[key].Union(&DCRV)
+			ctx.CRV_database[key].InPlaceUnion(&DCRV)
 		}
 	}
 	ctx.CRV_DB_RWLock.Unlock()
-- 
2.43.0


From 80456ce17e9ef575e8563d7b457fd4a348948b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:59 +0000
Subject: [PATCH 11/37] fix: SRH verification covers the updated CRV and the
 CA's own signature

---
 client/client.go   | 14 ++++++++++----
 monitor/monitor.go | 20 ++++++++++++++------
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/client/client.go b/client/client.go
index 0f1ef51..5345bd8 100644
--- a/client/client.go
+++ b/client/client.go
@@ -100,12 +100,13 @@ func fetch(url string) ([]byte, error) {
 
 func (ctx *ClientContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string, Period string) bool {
 	// find the corresponding CRV
-	CRV_old := ctx.CRV_database[CAID]
-	if CRV_old == nil {
-		CRV_old = dCRV
+	// the SRH covers the CRV after the update together with the delta
+	CRV_new := dCRV
+	if CRV_old := ctx.CRV_database[CAID]; CRV_old != nil {
+		CRV_new = CRV_old.Union(dCRV)
 	}
 	// verify the SRH
-	hashmsg1, _ := CRV_old.MarshalBinary()
+	hashmsg1, _ := CRV_new.MarshalBinary()
 	hashmsg2, _ := dCRV.MarshalBinary()
 	hash1, _ := crypto.GenerateSHA256(hashmsg1)
 	hash2, _ := crypto.GenerateSHA256(hashmsg2)
@@ -116,6 +117,11 @@ func (ctx *ClientContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string
 	rsasig, err := crypto.RSASigFromString(srh)
 	if err != nil {
 		fmt.Println("Fail to convert the signature from the SRH to RSA signature")
+		return false
+	}
+	if rsasig.ID != crypto.CTngID(CAID) {
+		fmt.Println("The SRH is not signed by the CA")
+		return false
 	}
 	ca_publickey := ctx.Crypto.SignPublicMap[rsasig.ID]
 	err = crypto.RSAVerify(localhash, rsasig, &ca_publickey)
diff --git a/monitor/monitor.go b/monitor/monitor.go
index 2b56a0e..b6c18c2 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -492,22 +492,30 @@ func Process_valid_object(c *MonitorContext, g definition.Gossip_object) {
 
 func (ctx *MonitorContext) VerifySRH(srh string, dCRV *bitset.BitSet, CAID string, Period string) bool {
 	// find the corresponding CRV
-	CRV_old := ctx.Storage_CRV[CAID]
-	if CRV_old == nil {
-		CRV_old = dCRV
+	// the SRH covers the CRV after the update together with the delta
+	ctx.CRV_lock.Lock()
+	CRV_new := dCRV
+	if CRV_old := ctx.Storage_CRV[CAID]; CRV_old != nil {
+		CRV_new = CRV_old.Union(dCRV)
 	}
+	ctx.CRV_lock.Unlock()
 	// verify the SRH
-	hashmsg1, _ := CRV_old.MarshalBinary()
+	hashmsg1, _ := CRV_new.MarshalBinary()
 	hashmsg2, _ := dCRV.MarshalBinary()
-	hash_old, _ := crypto.GenerateSHA256(hashmsg1)
+	hash_new, _ := crypto.GenerateSHA256(hashmsg1)
 	hash_delta, _ := crypto.GenerateSHA256(hashmsg2)
 
-	localhash, _ := crypto.GenerateSHA256([]byte(Period + string(hash_old) + string(hash_delta)))
+	localhash, _ := crypto.GenerateSHA256([]byte(Period + string(hash_new) + string(hash_delta)))
 	// the localhash will be te message we used to verify the Signature on the SRH
 	// verify the signature
 	rsasig, err := crypto.RSASigFromString(srh)
 	if err != nil {
 		fmt.Println("Fail to convert the signature from the SRH to RSA signature")
+		return false
+	}
+	if rsasig.ID != crypto.CTngID(CAID) {
+		fmt.Println("The SRH is not signed by the CA")
+		return false
 	}
 	ca_publickey := ctx.Monitor_crypto_config.SignPublicMap[rsasig.ID]
 	err = crypto.RSAVerify(localhash, rsasig, &ca_publickey)
-- 
2.43.0


From 82049eed5916848368c787fb9ca60e1ae33c9c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:59 +0000
Subject: [PATCH 12/37] fix: client takes each kind of statement only from
 objects of that kind

---
 client/client.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/client/client.go b/client/client.go
index 5345bd8..d481995 100644
--- a/client/client.go
+++ b/client/client.go
@@ -138,7 +138,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 	for _, rev := range update.REVs {
 		if verify {
 			err := rev.Verify(ctx.Crypto)
-			if err != nil {
+			if err != nil || rev.Type != definition.REV_FULL {
 				fmt.Println("REV verification failed")
 				ctx.CRV_DB_RWLock.Unlock()
 				return false
@@ -166,7 +166,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 	for _, sth := range update.STHs {
 		if verify {
 			err := sth.Verify(ctx.Crypto)
-			if err != nil {
+			if err != nil || sth.Type != definition.STH_FULL {
 				fmt.Println("sth verification failed")
 				ctx.STH_DB_RWLock.Unlock()
 				return false
@@ -192,7 +192,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 	for _, pom := range update.POM_ACCs {
 		if verify {
 			err := pom.Verify(ctx.Crypto)
-			if err != nil {
+			if err != nil || pom.Type != definition.ACC_FULL {
 				fmt.Println("pom verification failed")
 				ctx.POM_DB_RWLock.Unlock()
 				return false
@@ -205,7 +205,7 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 	for _, pom := range update.POM_CONs {
 		if verify {
 			err := pom.Verify(ctx.Crypto)
-			if err != nil {
+			if err != nil || pom.Type != definition.CON_INIT {
 				fmt.Println("pom verification failed")
 				ctx.POM_DB_RWLock.Unlock()
 				return false
-- 
2.43.0


From e313663b3bb8a6c3fec4a430bbcb058e842e68dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:59 +0000
Subject: [PATCH 13/37] fix: client looks up the PoM of the logger whose tree
 head it relies on

---
 client/client.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/client.go b/client/client.go
index d481995..6c4c350 100644
--- a/client/client.go
+++ b/client/client.go
@@ -229,7 +229,7 @@ func (ctx *ClientContext) VerifyCTngextension(cert *x509.Certificate) bool {
 	Precert := util.ParseTBSCertificate(cert)
 	for _, loggerinfo := range CTngext.LoggerInformation {
 		// if logger is blacklisted already
-		if _, ok := ctx.POM_database[loggerinfo.STH.Signer]; ok {
+		if _, ok := ctx.POM_database[loggerinfo.STH.Payload[0]]; ok {
 			fmt.Println("Logger is blacklisted")
 			faulty_logger++
 		} else {
-- 
2.43.0


From c1ddb2de2622d718b1f4706c77f48c034e890bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:00 +0000
Subject: [PATCH 14/37] fix: client rejects certificates of issuers without
 revocation information

---
 client/client.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client/client.go b/client/client.go
index 6c4c350..3fce117 100644
--- a/client/client.go
+++ b/client/client.go
@@ -275,6 +275,10 @@ func (ctx *ClientContext) VerifyCTngextension(cert *x509.Certificate) bool {
 
 	RID := CA.GetRIDfromCert(cert)
 	CRV_to_check := ctx.CRV_database[cert.Issuer.CommonName]
+	if CRV_to_check == nil {
+		fmt.Println("No revocation information for the issuer")
+		return false
+	}
 	if CRV_to_check.Test(uint(RID)) {
 		fmt.Println("Certificate has been revoked")
 		return false
-- 
2.43.0


From 30815e1347565e78bf99a5dd97e90abe030e379b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:00 +0000
Subject: [PATCH 15/37] fix: client checks certificates under its database
 locks

---
 client/client.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/client/client.go b/client/client.go
index 3fce117..30aca52 100644
--- a/client/client.go
+++ b/client/client.go
@@ -220,6 +220,12 @@ func (ctx *ClientContext) HandleUpdate(update monitor.ClientUpdate, verify bool,
 }
 
 func (ctx *ClientContext) VerifyCTngextension(cert *x509.Certificate) bool {
+	ctx.CRV_DB_RWLock.RLock()
+	defer ctx.CRV_DB_RWLock.RUnlock()
+	ctx.STH_DB_RWLock.RLock()
+	defer ctx.STH_DB_RWLock.RUnlock()
+	ctx.POM_DB_RWLock.RLock()
+	defer ctx.POM_DB_RWLock.RUnlock()
 	var CTngext CA.CTngExtension
 	CTngext = CA.ParseCTngextension(cert)
 	var total int
-- 
2.43.0


From a94d36d5019f8abe0e17537c59d02547d2e78772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:36 +0000
Subject: [PATCH 16/37] fix: monitor finds conflict PoMs of every period

---
 monitor/monitor.go |  7 +------
 monitor/types.go   | 28 +++++++++++++++-------------
 2 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index b6c18c2..7ecb9c7 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -380,12 +380,7 @@ func Check_entity_pom(c *MonitorContext, Accused string) bool {
 		fmt.Println(util.BLUE + "Entity has Accusation_PoM on file, no need for more accusations." + util.RESET)
 		return true
 	}
-	GID2 := definition.Gossip_ID{
-		Period:     "0",
-		Type:       definition.CON_INIT,
-		Entity_URL: Accused,
-	}
-	if _, ok := (*c.Storage_CONFLICT_POM)[GID2]; ok {
+	if c.HasConflictPom(Accused) {
 		fmt.Println(util.BLUE + "Entity has Conflict_PoM on file, no need for more accusations." + util.RESET)
 		return true
 	}
diff --git a/monitor/types.go b/monitor/types.go
index 8c537a1..f66416d 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -85,26 +85,28 @@ func (c *MonitorContext) GetObjectNumber(objtype string) int {
 	}
 	return 0
 }
+
+// HasConflictPom tells whether there is a conflict PoM of any period against the entity
+func (c *MonitorContext) HasConflictPom(entity string) bool {
+	c.CONFLICT_POM_lock.RLock()
+	defer c.CONFLICT_POM_lock.RUnlock()
+	for key := range *c.Storage_CONFLICT_POM {
+		if key.Entity_URL == entity {
+			return true
+		}
+	}
+	return false
+}
+
 func (c *MonitorContext) Clean_Conflicting_Object() {
-	GID := definition.Gossip_ID{}
 	for key := range *c.Storage_STH_FULL {
-		GID = definition.Gossip_ID{
-			Period:     "0",
-			Type:       definition.CON_INIT,
-			Entity_URL: key.Entity_URL,
-		}
-		if _, ok := (*c.Storage_CONFLICT_POM)[GID]; ok {
+		if c.HasConflictPom(key.Entity_URL) {
 			fmt.Println(util.BLUE + "Logger: " + key.Entity_URL + "has Conflict_PoM on file, cleared the STH from this Logger this MMD" + util.RESET)
 			delete(*c.Storage_STH_FULL, key)
 		}
 	}
 	for key := range *c.Storage_REV_FULL {
-		GID = definition.Gossip_ID{
-			Period:     "0",
-			Type:       definition.CON_INIT,
-			Entity_URL: key.Entity_URL,
-		}
-		if _, ok := (*c.Storage_CONFLICT_POM)[GID]; ok {
+		if c.HasConflictPom(key.Entity_URL) {
 			fmt.Println(util.BLUE + "CA: " + key.Entity_URL + "has Conflict_PoM on file, cleared the REV from this CA this MRD" + util.RESET)
 			delete(*c.Storage_REV_FULL, key)
 		}
-- 
2.43.0


From b05292aaf295f27130da984f3ad5b296c1ca933f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:38 +0000
Subject: [PATCH 17/37] fix: monitor merges later revocation deltas into its
 CRV

---
 monitor/types.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/monitor/types.go b/monitor/types.go
index f66416d..a0af24e 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -251,14 +251,12 @@ func (c *MonitorContext) StoreObject(o definition.Gossip_object) {
 		//Update CRV
 		// look for CRV first
 		f := func() {
+			c.CRV_lock.Lock()
+			defer c.CRV_lock.Unlock()
 			if _, ok := c.Storage_CRV[key]; !ok {
-				c.CRV_lock.Lock()
 				c.Storage_CRV[key] = &DCRV
-				c.CRV_lock.Unlock()
 			} else {
-				c.CRV_lock.Lock()
-				c.Storage_CRV[key].Union(&DCRV)
-				c.CRV_lock.Unlock()
+				c.Storage_CRV[key].InPlaceUnion(&DCRV)
 			}
 		}
 		time.AfterFunc(20*time.Second, f)
-- 
2.43.0


From daa68304373cc4212232cf962973d036f8bc8a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:40 +0000
Subject: [PATCH 18/37] fix: monitor does not process an undecodable gossip
 message

---
 monitor/monitor.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 7ecb9c7..17dc2ea 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -46,6 +46,7 @@ func handle_gossip_from_gossiper(c *MonitorContext, w http.ResponseWriter, r *ht
 	r.Body.Close()
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	if c.IsDuplicate(gossip_obj) {
 		// If the object is already stored, still return OK.{
-- 
2.43.0


From cf6a7fd2e5dc7336d18bd909f43158f74414da28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:42 +0000
Subject: [PATCH 19/37] fix: a request for a missing client update is answered
 with an error

---
 monitor/client-update-monitor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/monitor/client-update-monitor.go b/monitor/client-update-monitor.go
index 30fe80d..08e94a5 100644
--- a/monitor/client-update-monitor.go
+++ b/monitor/client-update-monitor.go
@@ -45,10 +45,15 @@ func requestupdate(c *MonitorContext, w http.ResponseWriter, r *http.Request) {
 	err := json.NewDecoder(r.Body).Decode(&periodnum)
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	//get the file path
 	filepath := c.StorageDirectory + "/Period_" + periodnum + "/ClientUpdate.json"
-	ctupdate, _ := PrepareClientUpdate(c, filepath)
+	ctupdate, err := PrepareClientUpdate(c, filepath)
+	if err != nil {
+		http.Error(w, err.Error(), http.StatusNotFound)
+		return
+	}
 	fmt.Println(ctupdate.Period)
 	msg, _ := json.Marshal(ctupdate)
 	json.NewEncoder(w).Encode(msg)
-- 
2.43.0


From 4b60e0152c7b82c059390312b6374e372697b94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:45 +0000
Subject: [PATCH 20/37] fix: LoadOneStorage reports success when it loaded the
 objects

---
 monitor/types.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/monitor/types.go b/monitor/types.go
index a0af24e..9b7f6cb 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -160,8 +160,10 @@ func (c *MonitorContext) LoadOneStorage(name string, filepath string) error {
 		for _, gossipObject := range storageList {
 			(*c.Storage_REV_FULL)[gossipObject.GetID()] = gossipObject
 		}
+	default:
+		return errors.New("Mismatch")
 	}
-	return errors.New("Mismatch")
+	return nil
 }
 
 func (c *MonitorContext) GetObject(id definition.Gossip_ID) definition.Gossip_object {
-- 
2.43.0


From a25f74dc5e0d1a8076ca43afcbd4b719b9389f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:47 +0000
Subject: [PATCH 21/37] fix: a queried logger or CA must answer with its own
 statement

---
 monitor/monitor.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 17dc2ea..536fb70 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -162,6 +162,9 @@ func QueryLoggers(c *MonitorContext) {
 						if err3 != nil {
 							log.Println(util.RED+"STH signature verification failed"+err3.Error(), util.RESET)
 							Wait_then_accuse(c, loggerURL, "logger")
+						} else if STH.Type != definition.STH_INIT || STH.Signer != loggerURL {
+							log.Println(util.RED+"Logger did not answer with its own STH", util.RESET)
+							Wait_then_accuse(c, loggerURL, "logger")
 						} else {
 							// Process valid object
 							Process_valid_object(c, STH)
@@ -270,6 +273,12 @@ func QueryAuthorities(c *MonitorContext) {
 					return
 				}
 
+				if REV.Type != definition.REV_INIT || REV.Signer != CAURL {
+					log.Println(util.RED+"CA did not answer with its own revocation information", util.RESET)
+					Wait_then_accuse(c, CAURL, "ca")
+					return
+				}
+
 				SRH, DCRV := Get_SRH_and_DCRV(REV)
 				key := REV.Payload[0]
 				pass := c.VerifySRH(SRH, &DCRV, key, REV.Period)
-- 
2.43.0


From 923fead96d18f46f55a1943993abd85c8f084d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:49 +0000
Subject: [PATCH 22/37] fix: monitor accesses its storage under the storage
 locks

---
 monitor/monitor.go | 17 ++++++++++++++++-
 monitor/types.go   | 38 ++++++++++++++++++++++++++++++++++++--
 2 files changed, 52 insertions(+), 3 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index 536fb70..cf8fe0a 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -333,14 +333,18 @@ func Wait_then_accuse(c *MonitorContext, Accused string, Entity_type string) {
 				Type:       definition.STH_INIT,
 				Entity_URL: Accused,
 			}
+			c.TEMP_lock.RLock()
 			_, ok = (*c.Storage_TEMP)[GID]
+			c.TEMP_lock.RUnlock()
 		} else if Entity_type == "ca" {
 			GID = definition.Gossip_ID{
 				Period:     util.GetCurrentPeriod(),
 				Type:       definition.REV_INIT,
 				Entity_URL: Accused,
 			}
+			c.TEMP_lock.RLock()
 			_, ok = (*c.Storage_TEMP)[GID]
+			c.TEMP_lock.RUnlock()
 		}
 		if Check_entity_pom(c, Accused) == false && !ok {
 			AccuseEntity(c, Accused)
@@ -386,7 +390,10 @@ func Check_entity_pom(c *MonitorContext, Accused string) bool {
 		Type:       definition.ACC_FULL,
 		Entity_URL: Accused,
 	}
-	if _, ok := (*c.Storage_ACCUSATION_POM)[GID]; ok {
+	c.ACCUSATION_POM_lock.RLock()
+	_, ok := (*c.Storage_ACCUSATION_POM)[GID]
+	c.ACCUSATION_POM_lock.RUnlock()
+	if ok {
 		fmt.Println(util.BLUE + "Entity has Accusation_PoM on file, no need for more accusations." + util.RESET)
 		return true
 	}
@@ -420,18 +427,26 @@ func GenerateUpdate(c *MonitorContext) ClientUpdate {
 	storageList_rev_full := []definition.Gossip_object{}
 	storageList_pom_con := []definition.Gossip_object{}
 	storageList_pom_acc := []definition.Gossip_object{}
+	c.STH_FULL_lock.RLock()
 	for _, gossipObject := range *c.Storage_STH_FULL {
 		storageList_sth_full = append(storageList_sth_full, gossipObject)
 	}
+	c.STH_FULL_lock.RUnlock()
+	c.REV_FULL_lock.RLock()
 	for _, gossipObject := range *c.Storage_REV_FULL {
 		storageList_rev_full = append(storageList_rev_full, gossipObject)
 	}
+	c.REV_FULL_lock.RUnlock()
+	c.CONFLICT_POM_lock.RLock()
 	for _, gossipObject := range *c.Storage_CONFLICT_POM_DELTA {
 		storageList_pom_con = append(storageList_pom_con, gossipObject)
 	}
+	c.CONFLICT_POM_lock.RUnlock()
+	c.ACCUSATION_POM_lock.RLock()
 	for _, gossipObject := range *c.Storage_ACCUSATION_POM_DELTA {
 		storageList_pom_acc = append(storageList_pom_acc, gossipObject)
 	}
+	c.ACCUSATION_POM_lock.RUnlock()
 	CTupdate := ClientUpdate{
 		STHs:      storageList_sth_full,
 		REVs:      storageList_rev_full,
diff --git a/monitor/types.go b/monitor/types.go
index 9b7f6cb..19f01f8 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -75,12 +75,20 @@ type Monitor_public_config struct {
 func (c *MonitorContext) GetObjectNumber(objtype string) int {
 	switch objtype {
 	case definition.CON_INIT:
+		c.CONFLICT_POM_lock.RLock()
+		defer c.CONFLICT_POM_lock.RUnlock()
 		return len(*c.Storage_CONFLICT_POM)
 	case definition.ACC_FULL:
+		c.ACCUSATION_POM_lock.RLock()
+		defer c.ACCUSATION_POM_lock.RUnlock()
 		return len(*c.Storage_ACCUSATION_POM)
 	case definition.STH_FULL:
+		c.STH_FULL_lock.RLock()
+		defer c.STH_FULL_lock.RUnlock()
 		return len(*c.Storage_STH_FULL)
 	case definition.REV_FULL:
+		c.REV_FULL_lock.RLock()
+		defer c.REV_FULL_lock.RUnlock()
 		return len(*c.Storage_REV_FULL)
 	}
 	return 0
@@ -99,18 +107,22 @@ func (c *MonitorContext) HasConflictPom(entity string) bool {
 }
 
 func (c *MonitorContext) Clean_Conflicting_Object() {
+	c.STH_FULL_lock.Lock()
 	for key := range *c.Storage_STH_FULL {
 		if c.HasConflictPom(key.Entity_URL) {
 			fmt.Println(util.BLUE + "Logger: " + key.Entity_URL + "has Conflict_PoM on file, cleared the STH from this Logger this MMD" + util.RESET)
 			delete(*c.Storage_STH_FULL, key)
 		}
 	}
+	c.STH_FULL_lock.Unlock()
+	c.REV_FULL_lock.Lock()
 	for key := range *c.Storage_REV_FULL {
 		if c.HasConflictPom(key.Entity_URL) {
 			fmt.Println(util.BLUE + "CA: " + key.Entity_URL + "has Conflict_PoM on file, cleared the REV from this CA this MRD" + util.RESET)
 			delete(*c.Storage_REV_FULL, key)
 		}
 	}
+	c.REV_FULL_lock.Unlock()
 }
 
 func (c *MonitorContext) SaveStorage(Period string, update ClientUpdate) error {
@@ -123,11 +135,13 @@ func (c *MonitorContext) SaveStorage(Period string, update ClientUpdate) error {
 	util.WriteData(clientUpdate_path, update)
 	//save CRV
 	var crvstorage = make(map[string][]byte)
+	c.CRV_lock.Lock()
 	for key, value := range c.Storage_CRV {
 		crvbin, _ := value.MarshalBinary()
 		crvstorage[key], _ = util.CompressData(crvbin)
 		//crvstorage[key], _ = value.MarshalBinary()
 	}
+	c.CRV_lock.Unlock()
 	util.WriteData(c.StorageFile_CRV, crvstorage)
 	fmt.Println(util.BLUE, "File Storage Complete for Period: ", util.GetCurrentPeriod(), util.RESET)
 	return nil
@@ -145,21 +159,29 @@ func (c *MonitorContext) LoadOneStorage(name string, filepath string) error {
 	}
 	switch name {
 	case definition.CON_INIT:
+		c.CONFLICT_POM_lock.Lock()
 		for _, gossipObject := range storageList {
 			(*c.Storage_CONFLICT_POM)[gossipObject.GetID()] = gossipObject
 		}
+		c.CONFLICT_POM_lock.Unlock()
 	case definition.ACC_FULL:
+		c.ACCUSATION_POM_lock.Lock()
 		for _, gossipObject := range storageList {
 			(*c.Storage_ACCUSATION_POM)[gossipObject.GetID()] = gossipObject
 		}
+		c.ACCUSATION_POM_lock.Unlock()
 	case definition.STH_FULL:
+		c.STH_FULL_lock.Lock()
 		for _, gossipObject := range storageList {
 			(*c.Storage_STH_FULL)[gossipObject.GetID()] = gossipObject
 		}
+		c.STH_FULL_lock.Unlock()
 	case definition.REV_FULL:
+		c.REV_FULL_lock.Lock()
 		for _, gossipObject := range storageList {
 			(*c.Storage_REV_FULL)[gossipObject.GetID()] = gossipObject
 		}
+		c.REV_FULL_lock.Unlock()
 	default:
 		return errors.New("Mismatch")
 	}
@@ -223,15 +245,15 @@ func (c *MonitorContext) StoreObject(o definition.Gossip_object) {
 	case definition.CON_INIT:
 		c.CONFLICT_POM_lock.Lock()
 		(*c.Storage_CONFLICT_POM)[o.GetID()] = o
-		c.CONFLICT_POM_lock.Unlock()
 		(*c.Storage_CONFLICT_POM_DELTA)[o.GetID()] = o
+		c.CONFLICT_POM_lock.Unlock()
 		fmt.Println(util.BLUE, "CONFLICT_POM Stored", util.RESET)
 	case definition.ACC_FULL:
 		//ACCUSATION POM does not need to be stored, but this function is here for testing purposes
 		c.ACCUSATION_POM_lock.Lock()
 		(*c.Storage_ACCUSATION_POM)[o.GetID()] = o
-		c.ACCUSATION_POM_lock.Unlock()
 		(*c.Storage_ACCUSATION_POM_DELTA)[o.GetID()] = o
+		c.ACCUSATION_POM_lock.Unlock()
 		fmt.Println(util.BLUE, "ACCUSATION_POM Stored", util.RESET)
 	case definition.STH_FULL:
 		c.STH_FULL_lock.Lock()
@@ -264,37 +286,49 @@ func (c *MonitorContext) StoreObject(o definition.Gossip_object) {
 		time.AfterFunc(20*time.Second, f)
 		fmt.Println(util.BLUE, "REV_FULL Stored", util.RESET)
 	default:
+		c.TEMP_lock.Lock()
 		(*c.Storage_TEMP)[o.GetID()] = o
+		c.TEMP_lock.Unlock()
 	}
 
 }
 
 // wipe all temp data
 func (c *MonitorContext) WipeStorage() {
+	c.TEMP_lock.Lock()
 	for key := range *c.Storage_TEMP {
 		delete(*c.Storage_TEMP, key)
 	}
+	c.TEMP_lock.Unlock()
 	// we can clear All STH and REV storage, because we will write them to file at the end of the period
+	c.STH_FULL_lock.Lock()
 	for key := range *c.Storage_STH_FULL {
 		if key.Period != util.GetCurrentPeriod() {
 			delete(*c.Storage_STH_FULL, key)
 		}
 	}
+	c.STH_FULL_lock.Unlock()
+	c.REV_FULL_lock.Lock()
 	for key := range *c.Storage_REV_FULL {
 		if key.Period != util.GetCurrentPeriod() {
 			delete(*c.Storage_REV_FULL, key)
 		}
 	}
+	c.REV_FULL_lock.Unlock()
+	c.CONFLICT_POM_lock.Lock()
 	for key := range *c.Storage_CONFLICT_POM_DELTA {
 		if key.Period != util.GetCurrentPeriod() {
 			delete(*c.Storage_CONFLICT_POM_DELTA, key)
 		}
 	}
+	c.CONFLICT_POM_lock.Unlock()
+	c.ACCUSATION_POM_lock.Lock()
 	for key := range *c.Storage_ACCUSATION_POM_DELTA {
 		if key.Period != util.GetCurrentPeriod() {
 			delete(*c.Storage_ACCUSATION_POM_DELTA, key)
 		}
 	}
+	c.ACCUSATION_POM_lock.Unlock()
 	fmt.Println(util.BLUE, "Temp storage has been wiped.", util.RESET)
 }
 
-- 
2.43.0


From d87f10ead9526f95a6c814982a24cb9584ffe826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:14 +0000
Subject: [PATCH 23/37] fix: PoM deltas stay until a client update reports them

---
 monitor/monitor.go | 16 ++++++++++------
 monitor/types.go   | 15 +--------------
 2 files changed, 11 insertions(+), 20 deletions(-)

diff --git a/monitor/monitor.go b/monitor/monitor.go
index cf8fe0a..b041c34 100644
--- a/monitor/monitor.go
+++ b/monitor/monitor.go
@@ -437,16 +437,20 @@ func GenerateUpdate(c *MonitorContext) ClientUpdate {
 		storageList_rev_full = append(storageList_rev_full, gossipObject)
 	}
 	c.REV_FULL_lock.RUnlock()
-	c.CONFLICT_POM_lock.RLock()
-	for _, gossipObject := range *c.Storage_CONFLICT_POM_DELTA {
+	// a PoM is reported once: it leaves the delta with the update that reports it
+	c.CONFLICT_POM_lock.Lock()
+	for key, gossipObject := range *c.Storage_CONFLICT_POM_DELTA {
 		storageList_pom_con = append(storageList_pom_con, gossipObject)
+		delete(*c.Storage_CONFLICT_POM_DELTA, key)
 	}
-	c.CONFLICT_POM_lock.RUnlock()
-	c.ACCUSATION_POM_lock.RLock()
-	for _, gossipObject := range *c.Storage_ACCUSATION_POM_DELTA {
+	c.CONFLICT_POM_lock.Unlock()
+	// a PoM is reported once: it leaves the delta with the update that reports it
+	c.ACCUSATION_POM_lock.Lock()
+	for key, gossipObject := range *c.Storage_ACCUSATION_POM_DELTA {
 		storageList_pom_acc = append(storageList_pom_acc, gossipObject)
+		delete(*c.Storage_ACCUSATION_POM_DELTA, key)
 	}
-	c.ACCUSATION_POM_lock.RUnlock()
+	c.ACCUSATION_POM_lock.Unlock()
 	CTupdate := ClientUpdate{
 		STHs:      storageList_sth_full,
 		REVs:      storageList_rev_full,
diff --git a/monitor/types.go b/monitor/types.go
index 19f01f8..37947ef 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -315,20 +315,7 @@ func (c *MonitorContext) WipeStorage() {
 		}
 	}
 	c.REV_FULL_lock.Unlock()
-	c.CONFLICT_POM_lock.Lock()
-	for key := range *c.Storage_CONFLICT_POM_DELTA {
-		if key.Period != util.GetCurrentPeriod() {
-			delete(*c.Storage_CONFLICT_POM_DELTA, key)
-		}
-	}
-	c.CONFLICT_POM_lock.Unlock()
-	c.ACCUSATION_POM_lock.Lock()
-	for key := range *c.Storage_ACCUSATION_POM_DELTA {
-		if key.Period != util.GetCurrentPeriod() {
-			delete(*c.Storage_ACCUSATION_POM_DELTA, key)
-		}
-	}
-	c.ACCUSATION_POM_lock.Unlock()
+	// the PoM deltas stay until a client update has reported them
 	fmt.Println(util.BLUE, "Temp storage has been wiped.", util.RESET)
 }
 
-- 
2.43.0


From 30bbe7ccc192f9fa62ef79cfc1cb6d68d92d668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:50 +0000
Subject: [PATCH 24/37] fix: SaveStorage reports that the client update was not
 written

---
 monitor/types.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/monitor/types.go b/monitor/types.go
index 37947ef..3e46692 100644
--- a/monitor/types.go
+++ b/monitor/types.go
@@ -132,7 +132,9 @@ func (c *MonitorContext) SaveStorage(Period string, update ClientUpdate) error {
 	util.CreateDir(newdir)
 	clientUpdate_path := newdir + "/ClientUpdate.json"
 	util.CreateFile(clientUpdate_path)
-	util.WriteData(clientUpdate_path, update)
+	if err := util.WriteData(clientUpdate_path, update); err != nil {
+		return err
+	}
 	//save CRV
 	var crvstorage = make(map[string][]byte)
 	c.CRV_lock.Lock()
@@ -142,7 +144,9 @@ func (c *MonitorContext) SaveStorage(Period string, update ClientUpdate) error {
 		//crvstorage[key], _ = value.MarshalBinary()
 	}
 	c.CRV_lock.Unlock()
-	util.WriteData(c.StorageFile_CRV, crvstorage)
+	if err := util.WriteData(c.StorageFile_CRV, crvstorage); err != nil {
+		return err
+	}
 	fmt.Println(util.BLUE, "File Storage Complete for Period: ", util.GetCurrentPeriod(), util.RESET)
 	return nil
 }
-- 
2.43.0


From ad91395198805bb263d93c568068b977d28a24b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:10 +0000
Subject: [PATCH 25/37] fix: Merkle trees and proofs use a hash function that
 is safe for concurrent use

---
 crypto/MerkleTree.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crypto/MerkleTree.go b/crypto/MerkleTree.go
index 2332d0b..5e4b2be 100644
--- a/crypto/MerkleTree.go
+++ b/crypto/MerkleTree.go
@@ -52,8 +52,13 @@ func GenerateDataBlocks(certs []x509.Certificate) (dataBlocks []merkletree.DataB
 	return
 }
 
+// the default hash function of merkletree is one shared digest: concurrent use corrupts its results
+func merkleConfig() *merkletree.Config {
+	return &merkletree.Config{HashFunc: GenerateSHA256}
+}
+
 func GenerateMerkleTree(blocks []merkletree.DataBlock) (tree *merkletree.MerkleTree, error error) {
-	tree, error = merkletree.New(nil, blocks)
+	tree, error = merkletree.New(merkleConfig(), blocks)
 	return
 }
 
@@ -67,6 +72,6 @@ func GeneratePOI(tree *merkletree.MerkleTree) (proofs []*merkletree.Proof) {
 }
 
 func VerifyPOI(rootHash []byte, poi *merkletree.Proof, cert x509.Certificate) (ok bool, err error) {
-	ok, err = merkletree.Verify(&Certblock{Content: cert}, poi, rootHash, nil)
+	ok, err = merkletree.Verify(&Certblock{Content: cert}, poi, rootHash, merkleConfig())
 	return
 }
-- 
2.43.0


From 92e9c9f7713075bd615a8a1cbd3e5ccd2ef2b892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:13 +0000
Subject: [PATCH 26/37] fix: a logger with fewer than two precertificates in a
 period does not crash

---
 Logger/server.go     |  4 +++-
 crypto/MerkleTree.go | 16 ++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/Logger/server.go b/Logger/server.go
index 18d5f2e..733b71d 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -227,7 +227,9 @@ func PeriodicTask(ctx *LoggerContext) {
 		STH, sth, POIs := BuildMerkleTreeFromCerts(certlist, *ctx, periodint)
 		// duplicate the STH for testing
 		certlist2 := ctx.CurrentPrecertPool.GetCerts()
-		certlist2 = append(certlist2, certlist2[0])
+		if len(certlist2) > 0 {
+			certlist2 = append(certlist2, certlist2[0])
+		}
 		fmt.Println("len of certlist2: ", len(certlist2))
 		STH_FAKE, _, _ := BuildMerkleTreeFromCerts(certlist2, *ctx, periodint)
 		//fmt.Println("STH: ", STH)
diff --git a/crypto/MerkleTree.go b/crypto/MerkleTree.go
index 5e4b2be..4010b4f 100644
--- a/crypto/MerkleTree.go
+++ b/crypto/MerkleTree.go
@@ -58,6 +58,22 @@ func merkleConfig() *merkletree.Config {
 }
 
 func GenerateMerkleTree(blocks []merkletree.DataBlock) (tree *merkletree.MerkleTree, error error) {
+	if len(blocks) < 2 {
+		// merkletree does not build these: the root is the only leaf, or the hash of nothing
+		var leaf []byte
+		if len(blocks) == 1 {
+			leaf, error = blocks[0].Serialize()
+			if error != nil {
+				return nil, error
+			}
+		}
+		tree = &merkletree.MerkleTree{Config: merkleConfig(), NumLeaves: len(blocks)}
+		tree.Root, error = GenerateSHA256(leaf)
+		for range blocks {
+			tree.Proofs = append(tree.Proofs, &merkletree.Proof{})
+		}
+		return
+	}
 	tree, error = merkletree.New(merkleConfig(), blocks)
 	return
 }
-- 
2.43.0


From 4472f39c26908775475da7086bce348d6b771c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:14 +0000
Subject: [PATCH 27/37] fix: a CA announces revocations made after its first
 revocation period

---
 CA/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CA/server.go b/CA/server.go
index 238c020..6855478 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -420,7 +420,7 @@ func PeriodicTask(ctx *CAContext) {
 		//fmt.Println(rev)
 		fake_rev := Generate_Revocation(ctx, period, 1)
 		// update CRV
-		ctx.CRV.CRV_pre_update = ctx.CRV.CRV_current
+		ctx.CRV.CRV_pre_update = ctx.CRV.CRV_current.Clone()
 		ctx.REV_storage[period] = rev
 		ctx.REV_storage_fake[period] = fake_rev
 		fmt.Println("Fake REV = Real REV? ", reflect.DeepEqual(ctx.REV_storage[period].Payload, ctx.REV_storage_fake[period].Payload))
-- 
2.43.0


From 20c37b08215fab34e08358f415994ed080953eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:16 +0000
Subject: [PATCH 28/37] fix: a CA rejects unusable tree heads and proofs
 instead of panicking, and guards its storage

---
 CA/server.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/CA/server.go b/CA/server.go
index 6855478..0251f5f 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -10,6 +10,7 @@ import (
 
 	//"bytes"
 	"encoding/json"
+	"errors"
 	"fmt"
 
 	//"io/ioutil"
@@ -216,13 +217,18 @@ func receive_sth(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	decoder := json.NewDecoder(r.Body)
 	err := decoder.Decode(&gossip_sth)
 	if err != nil {
-		panic(err)
+		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	//fmt.Println("STH received from logger: ", gossip_sth.Signer)
 	// Verify the STH
 	err = gossip_sth.Verify(c.CA_crypto_config)
+	if err == nil && gossip_sth.Type != definition.STH_INIT {
+		err = errors.New("not a signed tree head")
+	}
 	if err != nil {
-		panic(err)
+		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	// Update the STH storage
 	//fmt.Println("STH passed verification")
@@ -239,12 +245,19 @@ func receive_poi(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	decoder := json.NewDecoder(r.Body)
 	err := decoder.Decode(&poi)
 	if err != nil {
-		panic(err)
+		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
 	}
 	//fmt.Println("POI received: ", poi)
 	//fmt.Println("Logger ID in this poi: ", poi.LoggerID)
 	// Get the STH of the logger
-	sth := c.STH_storage[poi.LoggerID]
+	c.STH_storage_lock.Lock()
+	sth, ok := c.STH_storage[poi.LoggerID]
+	c.STH_storage_lock.Unlock()
+	if !ok {
+		http.Error(w, "no signed tree head of this logger", http.StatusBadRequest)
+		return
+	}
 	//fmt.Println("sth: ", sth, c.STH_storage)
 	// Construct the logger info
 
@@ -252,13 +265,13 @@ func receive_poi(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		STH: sth,
 		POI: poi,
 	}
+	c.Certpool_lock.Lock()
+	defer c.Certpool_lock.Unlock()
 	target_cert := c.CurrentCertificatePool.GetCertBySubjectKeyID(string(poi.SubjectKeyId))
 	if target_cert != nil {
 		//fmt.Println(poi.SubjectKeyId)
 		target_cert = UpdateCTngExtension(target_cert, Logger_info)
-		c.Certpool_lock.Lock()
 		c.CurrentCertificatePool.UpdateCertBySubjectKeyID(string(poi.SubjectKeyId), target_cert)
-		c.Certpool_lock.Unlock()
 	}
 }
 
@@ -292,6 +305,8 @@ func Send_Signed_PreCert_To_Loggers(c *CAContext, precert *x509.Certificate, log
 }
 
 func wipeSTHstorage(c *CAContext) {
+	c.STH_storage_lock.Lock()
+	defer c.STH_storage_lock.Unlock()
 	for k := range c.STH_storage {
 		delete(c.STH_storage, k)
 	}
-- 
2.43.0


From 3fb9f97ffc8eaab1d6dd4f874e7350a2e83b99d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:40 +0000
Subject: [PATCH 29/37] fix: a logger logs only precertificates its CAs signed
 and survives malformed ones

---
 Logger/server.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Logger/server.go b/Logger/server.go
index 733b71d..3a53590 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -11,7 +11,6 @@ import (
 	"strconv"
 	"time"
 
-	"github.com/jik18001/CTngV2/CA"
 	"github.com/jik18001/CTngV2/crypto"
 	"github.com/jik18001/CTngV2/definition"
 	"github.com/jik18001/CTngV2/util"
@@ -118,7 +117,16 @@ func receive_pre_cert(c *LoggerContext, w http.ResponseWriter, r *http.Request)
 		return
 	}
 	// Parse the DER-encoded certificate
-	cert_ca = CA.Unmarshall_Signed_PreCert(body)
+	cert_ca, err = x509.ParseCertificate(body)
+	if err != nil {
+		http.Error(w, err.Error(), http.StatusBadRequest)
+		return
+	}
+	// only precertificates signed by one of our CAs are logged
+	if !Verifyprecert(*cert_ca, *c) {
+		http.Error(w, "precertificate is not signed by a known CA", http.StatusBadRequest)
+		return
+	}
 	// remove signature
 	precert := util.ParseTBSCertificate(cert_ca)
 	fmt.Println(precert.SubjectKeyId)
-- 
2.43.0


From 37236cd57bfd345fa55a26cc6283275afa0bfb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:42 +0000
Subject: [PATCH 30/37] fix: an unreachable CA or logger does not crash the
 sender

---
 CA/server.go     | 1 +
 Logger/server.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/CA/server.go b/CA/server.go
index 0251f5f..89d4f57 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -284,6 +284,7 @@ func Send_Signed_PreCert_To_Logger(c *CAContext, precert *x509.Certificate, logg
 	resp, err := c.Client.Post(PROTOCOL+logger+"/Logger/receive-precerts", "application/json", bytes.NewBuffer(precert_json))
 	if err != nil {
 		fmt.Println("Failed to send precert to loggers: ", err)
+		return
 	}
 	defer resp.Body.Close()
 }
diff --git a/Logger/server.go b/Logger/server.go
index 3a53590..ca8ccb7 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -162,6 +162,7 @@ func Send_POI_to_CA(c *LoggerContext, poi crypto.POI_for_transmission, ca string
 	resp, err := c.Client.Post(PROTOCOL+ca+"/CA/receive-poi", "application/json", bytes.NewBuffer(poi_json))
 	if err != nil {
 		fmt.Println("Failed to send POI to CA: ", err)
+		return
 	}
 	defer resp.Body.Close()
 }
-- 
2.43.0


From f424c384f90e4b43de0216e46e5d06ec1c3e3c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:01 +0000
Subject: [PATCH 31/37] fix: periods are written alike everywhere and wrap at
 the hour

---
 CA/server.go          | 21 +++------------------
 Logger/buildmerkle.go |  3 +--
 Logger/server.go      |  6 +-----
 util/helpers.go       |  6 ++++++
 4 files changed, 11 insertions(+), 25 deletions(-)

diff --git a/CA/server.go b/CA/server.go
index 89d4f57..cb12669 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -143,17 +143,7 @@ func requestREV(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		c.Request_Count = c.Request_Count + 1
 		c.Request_Count_lock.Unlock()
 	}
-	Period := GetCurrentPeriod()
-	// convert string to int
-	periodnum, err := strconv.Atoi(Period)
-	if err != nil {
-	}
-	// convert int to string
-	// add a leading 0 if the string is only 1 digit
-	if periodnum < 10 {
-		Period = "0" + strconv.Itoa(periodnum)
-	}
-	Period = strconv.Itoa(periodnum)
+	Period := util.GetCurrentPeriod()
 	switch c.CA_Type {
 	case 0:
 		//normal CA
@@ -419,19 +409,14 @@ func PeriodicTask(ctx *CAContext) {
 
 		//fmt.Println(certlist)
 		// get current period
-		period := GetCurrentPeriod()
+		period := util.GetCurrentPeriod()
 		// convert string to int
 		periodnum, err := strconv.Atoi(period)
 		if err != nil {
 		}
 		// add 1 to current period
 		periodnum = periodnum + 1
-		// convert int to string
-		// add a leading 0 if the string is only 1 digit
-		if periodnum < 10 {
-			period = "0" + strconv.Itoa(periodnum)
-		}
-		period = strconv.Itoa(periodnum)
+		period = util.PeriodString(periodnum)
 		rev := Generate_Revocation(ctx, period, 0)
 		//fmt.Println(rev)
 		fake_rev := Generate_Revocation(ctx, period, 1)
diff --git a/Logger/buildmerkle.go b/Logger/buildmerkle.go
index 42fdaf2..59892e4 100644
--- a/Logger/buildmerkle.go
+++ b/Logger/buildmerkle.go
@@ -4,7 +4,6 @@ import (
 	"crypto/x509"
 	"encoding/hex"
 	"encoding/json"
-	"strconv"
 
 	"github.com/jik18001/CTngV2/crypto"
 	"github.com/jik18001/CTngV2/definition"
@@ -40,7 +39,7 @@ func BuildMerkleTreeFromCerts(certs []x509.Certificate, ctx LoggerContext, perio
 	gossipSTH := definition.Gossip_object{
 		Application:   "CTng",
 		Type:          definition.STH_INIT,
-		Period:        strconv.Itoa(periodNum),
+		Period:        util.PeriodString(periodNum),
 		Signer:        string(ctx.Logger_private_config.Signer),
 		Timestamp:     STH1.Timestamp,
 		Signature:     [2]string{signature.String(), ""},
diff --git a/Logger/server.go b/Logger/server.go
index ca8ccb7..ab775df 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -224,11 +224,7 @@ func PeriodicTask(ctx *LoggerContext) {
 		if err != nil {
 		}
 		periodint = periodint + 1
-		period = strconv.Itoa(periodint)
-		// add a leading zero if the period is less than 10
-		if periodint < 10 {
-			period = "0" + period
-		}
+		period = util.PeriodString(periodint)
 		// update STH
 		certlist := ctx.CurrentPrecertPool.GetCerts()
 		fmt.Println("len of certlist: ", len(certlist))
diff --git a/util/helpers.go b/util/helpers.go
index 421cfe1..7a9ab70 100644
--- a/util/helpers.go
+++ b/util/helpers.go
@@ -7,6 +7,7 @@ import (
 	"crypto/x509"
 	"encoding/binary"
 	"encoding/pem"
+	"fmt"
 	"io"
 	"math"
 	"math/rand"
@@ -117,6 +118,11 @@ func GetCurrentPeriod() string {
 	return GetCurrentMinute()
 }
 
+// Periods are minutes: two digits, 00 to 59
+func PeriodString(period int) string {
+	return fmt.Sprintf("%02d", period%60)
+}
+
 // This needs to be changed with GetCurrentPeriod()
 func Getwaitingtime(MMD int) int {
 	timerfc := time.Now().UTC().Format(time.RFC3339)
-- 
2.43.0


From 4bd1b4124d9dd29fe53c968d2a418f8da727f3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:01 +0000
Subject: [PATCH 32/37] fix: checking a precertificate does not copy the logger
 state other handlers change

---
 Logger/server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Logger/server.go b/Logger/server.go
index ab775df..110e2c1 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -123,7 +123,7 @@ func receive_pre_cert(c *LoggerContext, w http.ResponseWriter, r *http.Request)
 		return
 	}
 	// only precertificates signed by one of our CAs are logged
-	if !Verifyprecert(*cert_ca, *c) {
+	if !Verifyprecert(*cert_ca, LoggerContext{Logger_private_config: c.Logger_private_config, Logger_crypto_config: c.Logger_crypto_config}) {
 		http.Error(w, "precertificate is not signed by a known CA", http.StatusBadRequest)
 		return
 	}
-- 
2.43.0


From 69d2f7206c1621c9d32ba1c7f0f00b449ac09472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:24 +0000
Subject: [PATCH 33/37] fix: a CA accesses its revocations and certificate pool
 under their locks

---
 CA/server.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/CA/server.go b/CA/server.go
index cb12669..97bfa25 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -137,11 +137,11 @@ func requestREV(c *CAContext, w http.ResponseWriter, r *http.Request) {
 		time.Sleep(time.Duration(util.GetRandomLatency(c.Min_latency, c.Max_latency)) * time.Millisecond) // Delay before sending
 	}
 	req_count := 1
+	c.Request_Count_lock.Lock()
+	defer c.Request_Count_lock.Unlock()
 	if c.CA_Type != 0 {
-		c.Request_Count_lock.Lock()
 		req_count = c.Request_Count + 1
 		c.Request_Count = c.Request_Count + 1
-		c.Request_Count_lock.Unlock()
 	}
 	Period := util.GetCurrentPeriod()
 	switch c.CA_Type {
@@ -370,7 +370,9 @@ func PeriodicTask(ctx *CAContext) {
 	// iterate over certs
 	for i := 0; i < len(certs); i++ {
 		//store in current cert pool
+		ctx.Certpool_lock.Lock()
 		ctx.CurrentCertificatePool.AddCert(&tbscerts[i])
+		ctx.Certpool_lock.Unlock()
 		//fmt.Println(certs[i].SubjectKeyId)
 		Send_Signed_PreCert_To_Loggers(ctx, certs[i], ctx.CA_private_config.Loggerlist)
 	}
@@ -378,7 +380,9 @@ func PeriodicTask(ctx *CAContext) {
 	f1 := func() {
 		// want to see if the STHs and POIs are updated
 		var certlist []x509.Certificate
+		ctx.Certpool_lock.Lock()
 		certlist = ctx.CurrentCertificatePool.GetCerts()
+		ctx.Certpool_lock.Unlock()
 		for i := 0; i < len(certlist); i++ {
 			//var ctngexts []CTngExtension
 			//ctngexts = GetCTngExtensions(&certlist[i])
@@ -422,9 +426,11 @@ func PeriodicTask(ctx *CAContext) {
 		fake_rev := Generate_Revocation(ctx, period, 1)
 		// update CRV
 		ctx.CRV.CRV_pre_update = ctx.CRV.CRV_current.Clone()
+		ctx.Request_Count_lock.Lock()
 		ctx.REV_storage[period] = rev
 		ctx.REV_storage_fake[period] = fake_rev
-		fmt.Println("Fake REV = Real REV? ", reflect.DeepEqual(ctx.REV_storage[period].Payload, ctx.REV_storage_fake[period].Payload))
+		ctx.Request_Count_lock.Unlock()
+		fmt.Println("Fake REV = Real REV? ", reflect.DeepEqual(rev.Payload, fake_rev.Payload))
 		//fmt.Println(ctx.REV_storage_fake[period].Verify(ctx.CA_crypto_config))
 		//fmt.Println(ctx.REV_storage[period].Verify(ctx.CA_crypto_config))
 		fmt.Println("CA Finished Generating Revocation for next period")
@@ -435,7 +441,9 @@ func PeriodicTask(ctx *CAContext) {
 		}
 		ctx.Request_Count = 0
 		ctx.Request_Count_lock.Unlock()
+		ctx.Certpool_lock.Lock()
 		ctx.CurrentCertificatePool = crypto.NewCertPool()
+		ctx.Certpool_lock.Unlock()
 	}
 	time.AfterFunc(time.Duration(ctx.CA_public_config.MMD-20)*time.Second, f1)
 }
-- 
2.43.0


From c43e48906296c99949268c65d5ddd6afa0f1fff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:55 +0000
Subject: [PATCH 34/37] fix: a logger closes a period's precertificate pool
 under its lock and loses no precertificate

---
 Logger/server.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/Logger/server.go b/Logger/server.go
index 110e2c1..ed0698a 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -226,36 +226,43 @@ func PeriodicTask(ctx *LoggerContext) {
 		periodint = periodint + 1
 		period = util.PeriodString(periodint)
 		// update STH
-		certlist := ctx.CurrentPrecertPool.GetCerts()
+		// close this period's pool: precerts that arrive from now on are logged in the next period
+		ctx.CertPool_lock.Lock()
+		ctx.Request_Count_lock.Lock()
+		closed := *ctx
+		ctx.Request_Count_lock.Unlock()
+		ctx.CurrentPrecertPool = crypto.NewCertPool()
+		ctx.CertPool_lock.Unlock()
+		certlist := closed.CurrentPrecertPool.GetCerts()
 		fmt.Println("len of certlist: ", len(certlist))
 		//fmt.Println("certlist: ", certlist)
-		STH, sth, POIs := BuildMerkleTreeFromCerts(certlist, *ctx, periodint)
+		STH, sth, POIs := BuildMerkleTreeFromCerts(certlist, closed, periodint)
 		// duplicate the STH for testing
-		certlist2 := ctx.CurrentPrecertPool.GetCerts()
+		certlist2 := closed.CurrentPrecertPool.GetCerts()
 		if len(certlist2) > 0 {
 			certlist2 = append(certlist2, certlist2[0])
 		}
 		fmt.Println("len of certlist2: ", len(certlist2))
-		STH_FAKE, _, _ := BuildMerkleTreeFromCerts(certlist2, *ctx, periodint)
+		STH_FAKE, _, _ := BuildMerkleTreeFromCerts(certlist2, closed, periodint)
 		//fmt.Println("STH: ", STH)
 		// update STH storage
+		ctx.Request_Count_lock.Lock()
 		ctx.STH_storage[period] = STH
 		ctx.STH_storage_fake[period] = STH_FAKE
+		ctx.Request_Count_lock.Unlock()
 		// send STH to all CAs
 		// fmt.Println(ctx.Logger_public_config.All_CA_URLs)
 		for i := 0; i < len(ctx.Logger_public_config.All_CA_URLs); i++ {
 			Send_STH_to_CA(ctx, STH, ctx.Logger_public_config.All_CA_URLs[i])
 		}
 		// send POI to the Issuer CA
-		Send_POIs_to_CAs(ctx, POIs, sth)
+		Send_POIs_to_CAs(&closed, POIs, sth)
 		ctx.Request_Count_lock.Lock()
 		if ctx.Request_Count > 0 {
 			ctx.OnlineDuration = ctx.OnlineDuration + 1
 		}
 		ctx.Request_Count = 0
 		ctx.Request_Count_lock.Unlock()
-		// clear the cert pool
-		ctx.CurrentPrecertPool = crypto.NewCertPool()
 	}
 	time.AfterFunc(time.Duration(ctx.Logger_public_config.MMD-20)*time.Second, f1)
 }
-- 
2.43.0


From 3b23d163be990e223f73c39e21cdcfb4c302cf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:57 +0000
Subject: [PATCH 35/37] fix: one unverifiable proof does not keep a logger from
 sending the others

---
 Logger/server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Logger/server.go b/Logger/server.go
index ed0698a..f019dd3 100644
--- a/Logger/server.go
+++ b/Logger/server.go
@@ -174,10 +174,13 @@ func Send_POIs_to_CAs(c *LoggerContext, POIs []crypto.POI_for_transmission, root
 		if len(POIs[i].SubjectKeyId) != 0 {
 			//fmt.Println([]byte(POIs[i].SubjectKeyId))
 			precert := c.CurrentPrecertPool.GetCertBySubjectKeyID(string(POIs[i].SubjectKeyId))
+			if precert == nil {
+				continue
+			}
 			pass, err := crypto.VerifyPOI(roothash, POIs[i].Poi, *precert)
 			if err != nil || pass == false {
 				fmt.Println("POI verification failed: ", err)
-				return
+				continue
 			}
 			// Get the Issuer CA
 			ca := POIs[i].Issuer
-- 
2.43.0


From 7cdbc0a1ba58122f8d88b879338252614f4b551e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:09 +0000
Subject: [PATCH 36/37] fix: precertificates of the same subject are not
 duplicates of each other

---
 crypto/certpool.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crypto/certpool.go b/crypto/certpool.go
index dd95625..214a1d5 100644
--- a/crypto/certpool.go
+++ b/crypto/certpool.go
@@ -5,6 +5,7 @@ package crypto
 
 import (
 	//"CTng/gossip"
+	"bytes"
 	"encoding/pem"
 	"fmt"
 
@@ -71,7 +72,8 @@ func (s *CertPool) contains(cert *x509.Certificate) bool {
 
 	candidates := s.byName[string(cert.RawSubject)]
 	for _, c := range candidates {
-		if s.certs[c].Equal(cert) {
+		// certificates reduced to their TBS fields have no Raw to tell them apart
+		if s.certs[c].Equal(cert) && bytes.Equal(s.certs[c].SubjectKeyId, cert.SubjectKeyId) {
 			return true
 		}
 	}
-- 
2.43.0


From a353078e9ea12f2f5fd4f4561015f9c867f2daf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:11 +0000
Subject: [PATCH 37/37] fix: a CA puts only verified proofs of inclusion into
 its certificates

---
 CA/server.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/CA/server.go b/CA/server.go
index 97bfa25..2edddec 100644
--- a/CA/server.go
+++ b/CA/server.go
@@ -260,6 +260,19 @@ func receive_poi(c *CAContext, w http.ResponseWriter, r *http.Request) {
 	target_cert := c.CurrentCertificatePool.GetCertBySubjectKeyID(string(poi.SubjectKeyId))
 	if target_cert != nil {
 		//fmt.Println(poi.SubjectKeyId)
+		// the certificate carries only proofs that the logger's tree head confirms
+		roothash, err := definition.ExtractRootHash(sth)
+		if err == nil {
+			pass := false
+			pass, err = crypto.VerifyPOI(roothash, poi.Poi, *target_cert)
+			if err == nil && !pass {
+				err = errors.New("proof of inclusion does not match the tree head")
+			}
+		}
+		if err != nil {
+			http.Error(w, err.Error(), http.StatusBadRequest)
+			return
+		}
 		target_cert = UpdateCTngExtension(target_cert, Logger_info)
 		c.CurrentCertificatePool.UpdateCertBySubjectKeyID(string(poi.SubjectKeyId), target_cert)
 	}
-- 
2.43.0

