# the gossiper's state
define cfgG(x) = uf("cfg.gossiper", *crypto.CryptoConfig)
define verified(g) = pure("(definition.Gossip_object).Verify", g, cfgG(0)) == nil
define idof(g) = definition.Gossip_ID{Period: g.Period, Type: g.Type, Entity_URL: g.Payload[0]}
define theG(x) = uf("cfg.ctx", *gossiper.GossiperContext)
define gctx(c) = c == theG(0) && c != nil && c.Gossip_object_storage != nil && c.Gossip_blacklist != nil && c.Gossiper_crypto_config == cfgG(0) && cfgG(0) != nil && cfgG(0).Threshold >= 1 && c.Gossiper_public_config != nil && c.Gossiper_private_config != nil && c.Client != nil && c.Gossiper_log != nil
define stored(c) = c.Gossip_object_storage
define accused(c, e) = blacklisted(c, e) || exists(p, string, has(c.Gossip_object_storage.CON_INIT, definition.Gossip_ID{Period: p, Type: definition.CON_INIT, Entity_URL: e}))
define settled(c, m, g) = accused(c, g.Payload[0]) || has(m, idof(g)) && (m[idof(g)].Signature == g.Signature || payload(m[idof(g)]) == payload(g))
define blacklisted(c, x) = has(c.Gossip_blacklist.BLACKLIST_PERM, x)

immutable gossiper.GossiperContext.Gossip_object_storage, gossiper.GossiperContext.Gossip_blacklist, gossiper.GossiperContext.Gossiper_crypto_config, gossiper.GossiperContext.Gossiper_public_config, gossiper.GossiperContext.Gossiper_private_config, gossiper.GossiperContext.Client, gossiper.GossiperContext.Gossiper_log, gossiper.GossiperContext.Optimization_threshold, gossiper.GossiperContext.Optimization_mode, gossiper.GossiperContext.Max_latency, gossiper.GossiperContext.Min_latency, gossiper.Gossiper_private_config.*, gossiper.Gossiper_public_config.*, crypto.CryptoConfig.*, gossiper.Gossip_blacklist.BLACKLIST_PERM, gossiper.Gossip_object_storage.CON_INIT

concurrent P07, P08, P09, P10, P11

guard gossiper.Gossip_object_storage: STH_INIT by STH_INIT_LOCK swappable
  invariant nonnil: m != nil
  obliges [P09] quarantine: forall(k, definition.Gossip_ID, implies(has(m, k) && !old(has(m, k)), !entry(blacklisted(theG(0), k.Entity_URL))))
  invariant [P07,P08] gate: forall(k, definition.Gossip_ID, implies(has(m, k), verified(m[k]) && m[k].Type == definition.STH_INIT && idof(m[k]) == k))
  guarantee [P08] kept: forall(k, definition.Gossip_ID, implies(old(has(m, k)), has(m, k) && m[k] == old(m[k])))
guard gossiper.Gossip_object_storage: REV_INIT by REV_INIT_LOCK swappable
  invariant nonnil: m != nil
  obliges [P09] quarantine: forall(k, definition.Gossip_ID, implies(has(m, k) && !old(has(m, k)), !entry(blacklisted(theG(0), k.Entity_URL))))
  invariant [P07,P08] gate: forall(k, definition.Gossip_ID, implies(has(m, k), verified(m[k]) && m[k].Type == definition.REV_INIT && idof(m[k]) == k))
  guarantee [P08] kept: forall(k, definition.Gossip_ID, implies(old(has(m, k)), has(m, k) && m[k] == old(m[k])))
guard gossiper.Gossip_object_storage: ACC_INIT by ACC_INIT_LOCK swappable
  invariant nonnil: m != nil
  obliges [P09] quarantine: forall(k, definition.Gossip_ID, implies(has(m, k) && !old(has(m, k)), !entry(blacklisted(theG(0), k.Entity_URL))))
  invariant [P07] gate: forall(k, definition.Gossip_ID, implies(has(m, k), verified(m[k]) && m[k].Type == definition.ACC_INIT && idof(m[k]) == k))
guard gossiper.Gossip_object_storage: CON_INIT by CON_INIT_LOCK
  invariant nonnil: m != nil
  guarantee [P09] kept: forall(k, definition.Gossip_ID, implies(old(has(m, k)), has(m, k)))
  obliges [P09] quarantine: forall(k, definition.Gossip_ID, implies(has(m, k) && !old(has(m, k)), !entry(blacklisted(theG(0), k.Entity_URL))))
  guarantee [P08] kept: forall(k, definition.Gossip_ID, implies(old(has(m, k)), has(m, k)))
  invariant [P08] keys: forall(k, definition.Gossip_ID, implies(has(m, k), k.Type == definition.CON_INIT && k.Entity_URL == m[k].Payload[0]))
  invariant [P07] gate: forall(k, definition.Gossip_ID, implies(has(m, k), verified(m[k]) && m[k].Type == definition.CON_INIT && idof(m[k]) == k))
guard gossiper.Gossip_object_storage: STH_FULL by STH_FULL_LOCK swappable
  invariant nonnil: m != nil
  obliges [P09] quarantine: forall(k, definition.Gossip_ID, implies(has(m, k) && !old(has(m, k)), !entry(blacklisted(theG(0), k.Entity_URL))))
  invariant [P08] keys: forall(k, definition.Gossip_ID, implies(has(m, k), k.Type == definition.STH_FULL))
  invariant [P07] gate: forall(k, definition.Gossip_ID, implies(has(m, k), verified(m[k]) && m[k].Type == definition.STH_FULL && idof(m[k]) == k))
guard gossiper.Gossip_object_storage: REV_FULL by REV_FULL_LOCK swappable
  invariant nonnil: m != nil
  obliges [P09] quarantine: forall(k, definition.Gossip_ID, implies(has(m, k) && !old(has(m, k)), !entry(blacklisted(theG(0), k.Entity_URL))))
  invariant [P08] keys: forall(k, definition.Gossip_ID, implies(has(m, k), k.Type == definition.REV_FULL))
  invariant [P07] gate: forall(k, definition.Gossip_ID, implies(has(m, k), verified(m[k]) && m[k].Type == definition.REV_FULL && idof(m[k]) == k))
guard gossiper.Gossip_object_storage: ACC_FULL by ACC_FULL_LOCK swappable
  invariant nonnil: m != nil
  guarantee [P09] kept: forall(k, definition.Gossip_ID, implies(old(has(m, k)), has(m, k)))
  obliges [P09] quarantine: forall(k, definition.Gossip_ID, implies(has(m, k) && !old(has(m, k)), !entry(blacklisted(theG(0), k.Entity_URL))))
  invariant [P07] gate: forall(k, definition.Gossip_ID, implies(has(m, k), verified(m[k]) && m[k].Type == definition.ACC_FULL && idof(m[k]) == k))
guard gossiper.Gossip_object_storage: STH_FRAG by STH_FRAG_LOCK swappable
  invariant nonnil: m != nil
  obliges [P09] quarantine: forall(k, definition.Gossip_ID, implies(has(m, k) && (!old(has(m, k)) || len(m[k]) > old(len(m[k]))), !entry(blacklisted(theG(0), k.Entity_URL))))
  invariant [P10] signers: forall(k, definition.Gossip_ID, forall(i, int, forall(j, int, implies(has(m, k) && 0 <= i && i < j && j < len(m[k]), m[k][i].Signer != m[k][j].Signer))))
  invariant [P10] capped: forall(k, definition.Gossip_ID, implies(has(m, k), len(m[k]) <= cfgG(0).Threshold))
  guarantee [P10] grows: forall(k, definition.Gossip_ID, implies(old(has(m, k)), has(m, k) && len(m[k]) >= old(len(m[k]))))
  guarantee [P10] kept: forall(k, definition.Gossip_ID, forall(i, int, implies(old(has(m, k)) && 0 <= i && i < old(len(m[k])), m[k][i] == old(m[k][i]))))
  invariant [P08] keys: forall(k, definition.Gossip_ID, implies(has(m, k), k.Type == definition.STH_FRAG))
  invariant [P07,P10] owned: forall(k, definition.Gossip_ID, forall(q, definition.Gossip_ID, implies(has(m, k) && has(m, q) && k != q && len(m[k]) > 0 && len(m[q]) > 0, ref(m[k]) != ref(m[q]))))
  invariant [P07,P10] gate: forall(k, definition.Gossip_ID, forall(i, int, implies(has(m, k) && 0 <= i && i < len(m[k]), verified(m[k][i]) && m[k][i].Type == definition.STH_FRAG && idof(m[k][i]) == k)))
guard gossiper.Gossip_object_storage: REV_FRAG by REV_FRAG_LOCK swappable
  invariant nonnil: m != nil
  obliges [P09] quarantine: forall(k, definition.Gossip_ID, implies(has(m, k) && (!old(has(m, k)) || len(m[k]) > old(len(m[k]))), !entry(blacklisted(theG(0), k.Entity_URL))))
  invariant [P10] signers: forall(k, definition.Gossip_ID, forall(i, int, forall(j, int, implies(has(m, k) && 0 <= i && i < j && j < len(m[k]), m[k][i].Signer != m[k][j].Signer))))
  invariant [P10] capped: forall(k, definition.Gossip_ID, implies(has(m, k), len(m[k]) <= cfgG(0).Threshold))
  guarantee [P10] grows: forall(k, definition.Gossip_ID, implies(old(has(m, k)), has(m, k) && len(m[k]) >= old(len(m[k]))))
  guarantee [P10] kept: forall(k, definition.Gossip_ID, forall(i, int, implies(old(has(m, k)) && 0 <= i && i < old(len(m[k])), m[k][i] == old(m[k][i]))))
  invariant [P08] keys: forall(k, definition.Gossip_ID, implies(has(m, k), k.Type == definition.REV_FRAG))
  invariant [P07,P10] owned: forall(k, definition.Gossip_ID, forall(q, definition.Gossip_ID, implies(has(m, k) && has(m, q) && k != q && len(m[k]) > 0 && len(m[q]) > 0, ref(m[k]) != ref(m[q]))))
  invariant [P07,P10] gate: forall(k, definition.Gossip_ID, forall(i, int, implies(has(m, k) && 0 <= i && i < len(m[k]), verified(m[k][i]) && m[k][i].Type == definition.REV_FRAG && idof(m[k][i]) == k)))
guard gossiper.Gossip_object_storage: ACC_FRAG by ACC_FRAG_LOCK swappable
  invariant nonnil: m != nil
  obliges [P09] quarantine: forall(k, definition.Gossip_ID, implies(has(m, k) && (!old(has(m, k)) || len(m[k]) > old(len(m[k]))), !entry(blacklisted(theG(0), k.Entity_URL))))
  invariant [P10] signers: forall(k, definition.Gossip_ID, forall(i, int, forall(j, int, implies(has(m, k) && 0 <= i && i < j && j < len(m[k]), m[k][i].Signer != m[k][j].Signer))))
  invariant [P10] capped: forall(k, definition.Gossip_ID, implies(has(m, k), len(m[k]) <= cfgG(0).Threshold))
  guarantee [P10] grows: forall(k, definition.Gossip_ID, implies(old(has(m, k)), has(m, k) && len(m[k]) >= old(len(m[k]))))
  guarantee [P10] kept: forall(k, definition.Gossip_ID, forall(i, int, implies(old(has(m, k)) && 0 <= i && i < old(len(m[k])), m[k][i] == old(m[k][i]))))
  invariant [P07,P10] owned: forall(k, definition.Gossip_ID, forall(q, definition.Gossip_ID, implies(has(m, k) && has(m, q) && k != q && len(m[k]) > 0 && len(m[q]) > 0, ref(m[k]) != ref(m[q]))))
  invariant [P07,P10] gate: forall(k, definition.Gossip_ID, forall(i, int, implies(has(m, k) && 0 <= i && i < len(m[k]), verified(m[k][i]) && m[k][i].Type == definition.ACC_FRAG && idof(m[k][i]) == k)))
guard gossiper.Gossip_object_storage: REV_PAYLOAD by REV_PAYLOAD_LOCK swappable
  invariant nonnil: m != nil
  invariant [P07] gate: forall(k, definition.Gossip_ID, implies(has(m, k), verified(m[k]) && idof(m[k]) == k))
guard gossiper.Gossip_blacklist: BLACKLIST_PERM by BLACKLIST_PERM_LOCK
  invariant nonnil: m != nil
  obliges [P09] grounds: forall(k, string, implies(has(m, k) && !old(has(m, k)), exists(g, definition.Gossip_object, verified(g) && g.Payload[0] == k && (g.Type == definition.CON_INIT || g.Type == definition.ACC_FULL))))
  guarantee [P08,P09] permanent: forall(k, string, implies(old(has(m, k)), has(m, k)))

func gossiper.Handle_Gossip_object(c, gossip_obj)
  locks [P11]
  requires ctx: gctx(c)
  ensures [P07,P08,P09,P10,P11] done: true
  ensures [P09] silent: implies(old(blacklisted(c, gossip_obj.Payload[0])), samenet())
  ensures [P09] effect: implies(verified(gossip_obj) && gossip_obj.Type == definition.CON_INIT, blacklisted(c, gossip_obj.Payload[0]) || has(stored(c).CON_INIT, idof(gossip_obj)))
  ensures [P09] effectacc: implies(verified(gossip_obj) && gossip_obj.Type == definition.ACC_FULL && stored(c).ACC_FULL == old(stored(c).ACC_FULL), blacklisted(c, gossip_obj.Payload[0]) || has(stored(c).ACC_FULL, idof(gossip_obj)))
  ensures [P08] sth: implies(verified(gossip_obj) && gossip_obj.Type == definition.STH_INIT && stored(c).STH_INIT == old(stored(c).STH_INIT), settled(c, stored(c).STH_INIT, gossip_obj))
  ensures [P08] rev: implies(verified(gossip_obj) && gossip_obj.Type == definition.REV_INIT && stored(c).REV_INIT == old(stored(c).REV_INIT), settled(c, stored(c).REV_INIT, gossip_obj))
  ensures [P08] conflict: implies(verified(gossip_obj) && gossip_obj.Type == definition.CON_INIT, accused(c, gossip_obj.Payload[0]))
  modifies all

func gossiper.Gossip_object_handler(c, w, r)
  requires ctx: gctx(c) && w != nil && r != nil && r.Body != nil
  locks [P11]
  ensures [P07,P08,P09,P10,P11] done: true
  modifies all

func gossiper.Handle_STH_INIT(c, gossip_obj)
  aux
  requires [P09] clean: !blacklisted(c, gossip_obj.Payload[0])
  locks [P11]
  requires ctx: gctx(c)
  requires type: gossip_obj.Type == definition.STH_INIT
  ensures [P08] sth: implies(verified(gossip_obj) && gossip_obj.Type == definition.STH_INIT && stored(c).STH_INIT == old(stored(c).STH_INIT), settled(c, stored(c).STH_INIT, gossip_obj))
  ensures [P07,P08,P09,P10,P11] done: true
  modifies all

func gossiper.Handle_REV_INIT(c, gossip_obj)
  aux
  requires [P09] clean: !blacklisted(c, gossip_obj.Payload[0])
  locks [P11]
  requires ctx: gctx(c)
  requires type: gossip_obj.Type == definition.REV_INIT
  ensures [P08] rev: implies(verified(gossip_obj) && gossip_obj.Type == definition.REV_INIT && stored(c).REV_INIT == old(stored(c).REV_INIT), settled(c, stored(c).REV_INIT, gossip_obj))
  ensures [P07,P08,P09,P10,P11] done: true
  modifies all

func gossiper.Handle_ACC_INIT(c, gossip_obj)
  aux
  requires [P09] clean: !blacklisted(c, gossip_obj.Payload[0])
  locks [P11]
  requires ctx: gctx(c)
  requires type: gossip_obj.Type == definition.ACC_INIT
  ensures [P07,P08,P09,P10,P11] done: true
  modifies all

func gossiper.Handle_CON_INIT(c, gossip_obj)
  aux
  ensures [P09] effect: implies(verified(gossip_obj) && gossip_obj.Type == definition.CON_INIT, blacklisted(c, gossip_obj.Payload[0]) || has(stored(c).CON_INIT, idof(gossip_obj)))
  requires [P09] clean: !blacklisted(c, gossip_obj.Payload[0])
  locks [P11]
  requires ctx: gctx(c)
  requires type: gossip_obj.Type == definition.CON_INIT
  ensures [P08] conflict: implies(verified(gossip_obj) && gossip_obj.Type == definition.CON_INIT, accused(c, gossip_obj.Payload[0]))
  ensures [P07,P08,P09,P10,P11] done: true
  modifies all

func gossiper.Handle_OBJ_FRAG(c, gossip_obj)
  aux
  requires [P09] clean: !blacklisted(c, gossip_obj.Payload[0])
  locks [P11]
  requires ctx: gctx(c)
  requires type: isfrag(gossip_obj.Type)
  ensures [P07,P08,P09,P10,P11] done: true
  modifies all

func gossiper.Handle_OBJ_FULL(c, gossip_obj)
  aux
  ensures [P09] effectacc: implies(verified(gossip_obj) && gossip_obj.Type == definition.ACC_FULL && stored(c).ACC_FULL == old(stored(c).ACC_FULL), blacklisted(c, gossip_obj.Payload[0]) || has(stored(c).ACC_FULL, idof(gossip_obj)))
  requires [P09] clean: !blacklisted(c, gossip_obj.Payload[0])
  locks [P11]
  requires ctx: gctx(c)
  requires type: isfull(gossip_obj.Type)
  ensures [P07,P08,P09,P10,P11] done: true
  modifies all

func (*gossiper.GossiperContext).Store_gossip_object(ctx, gossip_object) (r)
  aux [P07,P08,P10,P11]
  locks [P11]
  requires ctx: gctx(ctx)
  requires [P09] clean: !blacklisted(ctx, gossip_object.Payload[0])
  ensures [P09] effect: implies(r && (gossip_object.Type == definition.CON_INIT || gossip_object.Type == definition.ACC_FULL), blacklisted(ctx, gossip_object.Payload[0]))
  ensures [P09] stores: implies(verified(gossip_object) && gossip_object.Type == definition.CON_INIT, has(stored(ctx).CON_INIT, idof(gossip_object)))
  ensures [P09] storesacc: implies(verified(gossip_object) && gossip_object.Type == definition.ACC_FULL && stored(ctx).ACC_FULL == old(stored(ctx).ACC_FULL), has(stored(ctx).ACC_FULL, idof(gossip_object)))
  ensures [P09] net: samenet()
  ensures [P07] verified: implies(r, verified(gossip_object))
  ensures [P08] sth: implies(verified(gossip_object) && gossip_object.Type == definition.STH_INIT && stored(ctx).STH_INIT == old(stored(ctx).STH_INIT), ite(r, stored(ctx).STH_INIT[idof(gossip_object)] == gossip_object, true) && has(stored(ctx).STH_INIT, idof(gossip_object)))
  ensures [P08] rev: implies(verified(gossip_object) && gossip_object.Type == definition.REV_INIT && stored(ctx).REV_INIT == old(stored(ctx).REV_INIT), ite(r, stored(ctx).REV_INIT[idof(gossip_object)] == gossip_object, true) && has(stored(ctx).REV_INIT, idof(gossip_object)))
  ensures [P08] conflict: implies(verified(gossip_object) && gossip_object.Type == definition.CON_INIT, has(stored(ctx).CON_INIT, idof(gossip_object)))
  ensures [P08] invalid: implies(!verified(gossip_object), !r)
  modifies all

func (*gossiper.GossiperContext).Read_and_Store_If_Needed(ctx, gossip_object) (r)
  aux
  requires ctx: gctx(ctx)
  requires type: isfrag(gossip_object.Type)
  requires [P09] clean: !blacklisted(ctx, gossip_object.Payload[0])
  locks [P11]
  ensures [P09] net: samenet()
  ensures [P07] verified: implies(r < ctx.Gossiper_crypto_config.Threshold, verified(gossip_object))
  modifies all

func (*gossiper.GossiperContext).Generate_Gossip_Object_FULL(ctx, g_list, TargetType) (r)
  aux [P07,P08,P09,P11]
  locks [P11]
  requires ctx: gctx(ctx)
  requires [P10] enough: len(g_list) >= cfgG(0).Threshold
  requires [P10] fragments: forall(i, int, implies(0 <= i && i < len(g_list), verified(g_list[i]) && isfrag(g_list[i].Type) && idof(g_list[i]) == idof(g_list[0])))
  requires [P10] distinct: forall(i, int, forall(j, int, implies(0 <= i && i < j && j < len(g_list), g_list[i].Signer != g_list[j].Signer)))
  ensures [P10] type: r.Type == TargetType
  ensures [P10] payload: exists(i, int, 0 <= i && i < len(g_list) && r.Payload == old(g_list[i].Payload))
  modifies nothing

func gossiper.Send_obj_to_Gossipers(c, gossip_obj) (err)
  locks [P11]
  requires ctx: gctx(c)
  requires [P07] verified: verified(gossip_obj)
  modifies net, field(c.Total_traffic_sent)

func (*gossiper.GossiperContext).Send_to_Monitor(c, obj)
  locks [P11]
  requires ctx: gctx(c)
  requires [P07] verified: istype(definition.Gossip_object, obj) && verified(unbox(definition.Gossip_object, obj))
  modifies net, field(c.Total_traffic_sent)

func (*gossiper.GossiperContext).Generate_Gossip_Object_FRAG(ctx, g) (r)
  requires ctx: gctx(ctx)
  modifies nothing

func (*gossiper.GossiperContext).WipeStorage(ctx)
  swaps
  locks [P11]
  requires ctx: gctx(ctx)
  ensures [P07,P08,P09,P10,P11] done: true
  modifies all

func (*gossiper.GossiperContext).Save(ctx)
  locks [P11]
  requires ctx: gctx(ctx)
  ensures [P07,P09,P11] done: true
  modifies all

func gossiper.Gossip_notification_handler(c, w, r)
  locks [P11]
  requires ctx: gctx(c) && w != nil && r != nil && r.Body != nil
  ensures [P11] done: true
  modifies all

func gossiper.Gossip_request_handler(c, w, r)
  locks [P11]
  requires ctx: gctx(c) && w != nil && r != nil && r.Body != nil
  ensures [P07] handsout: forall(u, string, forall(b, string, implies(sent(u, b) && !old(sent(u, b)), exists(g, definition.Gossip_object, verified(g) && b == enc(g)))))
  ensures [P11] done: true
  modifies all

func (*gossiper.GossiperContext).SavePayload(ctx, g)
  aux
  locks [P11]
  requires ctx: gctx(ctx)
  ensures [P11] done: true
  modifies all

func (*gossiper.GossiperContext).GetObject(ctx, GID, targettype) (r)
  unitonly
  locks [P11]
  requires ctx: gctx(ctx)
  ensures [P11] done: true
  modifies all

func (*gossiper.GossiperContext).GetItem(ctx, ID, TargetType) (r)
  unitonly
  locks [P11]
  requires ctx: gctx(ctx)
  ensures [P11] done: true
  modifies all

func (*gossiper.GossiperContext).GetObjectList(ctx, GID, TargetType) (r)
  unitonly
  locks [P11]
  requires ctx: gctx(ctx)
  ensures [P11] done: true
  modifies all

func (*gossiper.GossiperContext).GetItemCount(ctx, ID, TargetType) (r, err)
  unitonly
  locks [P11]
  requires ctx: gctx(ctx)
  ensures [P11] done: true
  modifies all

func (*gossiper.GossiperContext).IsDuplicate(ctx, obj) (r, err)
  unitonly
  locks [P11]
  requires ctx: gctx(ctx)
  ensures [P11] done: true
  modifies all

guard gossiper.GossiperContext: Total_traffic_received by Counter1_lock
guard gossiper.GossiperContext: Total_traffic_sent by Counter2_lock
