# the monitor's databases
define mstores(c) = c.Storage_TEMP != nil && c.Storage_CONFLICT_POM != nil && c.Storage_ACCUSATION_POM != nil && c.Storage_CONFLICT_POM_DELTA != nil && c.Storage_ACCUSATION_POM_DELTA != nil && c.Storage_STH_FULL != nil && c.Storage_REV_FULL != nil
define mlocks(c) = c.CRV_lock != nil && c.CONFLICT_POM_lock != nil && c.ACCUSATION_POM_lock != nil && c.STH_FULL_lock != nil && c.REV_FULL_lock != nil && c.TEMP_lock != nil
define mmaps(c) = *c.Storage_TEMP != nil && *c.Storage_CONFLICT_POM != nil && *c.Storage_ACCUSATION_POM != nil && *c.Storage_CONFLICT_POM_DELTA != nil && *c.Storage_ACCUSATION_POM_DELTA != nil && *c.Storage_STH_FULL != nil && *c.Storage_REV_FULL != nil && c.Storage_CRV != nil
define mdistinct(c) = *c.Storage_TEMP != *c.Storage_CONFLICT_POM && *c.Storage_TEMP != *c.Storage_ACCUSATION_POM && *c.Storage_TEMP != *c.Storage_CONFLICT_POM_DELTA && *c.Storage_TEMP != *c.Storage_ACCUSATION_POM_DELTA && *c.Storage_TEMP != *c.Storage_STH_FULL && *c.Storage_TEMP != *c.Storage_REV_FULL && *c.Storage_CONFLICT_POM != *c.Storage_ACCUSATION_POM && *c.Storage_CONFLICT_POM != *c.Storage_CONFLICT_POM_DELTA && *c.Storage_CONFLICT_POM != *c.Storage_ACCUSATION_POM_DELTA && *c.Storage_CONFLICT_POM != *c.Storage_STH_FULL && *c.Storage_CONFLICT_POM != *c.Storage_REV_FULL && *c.Storage_ACCUSATION_POM != *c.Storage_CONFLICT_POM_DELTA && *c.Storage_ACCUSATION_POM != *c.Storage_ACCUSATION_POM_DELTA && *c.Storage_ACCUSATION_POM != *c.Storage_STH_FULL && *c.Storage_ACCUSATION_POM != *c.Storage_REV_FULL && *c.Storage_CONFLICT_POM_DELTA != *c.Storage_ACCUSATION_POM_DELTA && *c.Storage_CONFLICT_POM_DELTA != *c.Storage_STH_FULL && *c.Storage_CONFLICT_POM_DELTA != *c.Storage_REV_FULL && *c.Storage_ACCUSATION_POM_DELTA != *c.Storage_STH_FULL && *c.Storage_ACCUSATION_POM_DELTA != *c.Storage_REV_FULL && *c.Storage_STH_FULL != *c.Storage_REV_FULL
define mctx(c) = c != nil && mstores(c) && mlocks(c) && mmaps(c) && mdistinct(c) && c.Monitor_private_config != nil && c.Monitor_public_config != nil && c.Monitor_crypto_config != nil && c.Client != nil

immutable monitor.MonitorContext.Monitor_private_config, monitor.MonitorContext.Monitor_public_config, monitor.MonitorContext.Monitor_crypto_config, monitor.MonitorContext.Storage_TEMP, monitor.MonitorContext.Storage_CONFLICT_POM, monitor.MonitorContext.Storage_ACCUSATION_POM, monitor.MonitorContext.Storage_CONFLICT_POM_DELTA, monitor.MonitorContext.Storage_ACCUSATION_POM_DELTA, monitor.MonitorContext.Storage_STH_FULL, monitor.MonitorContext.Storage_REV_FULL, monitor.MonitorContext.CRV_lock, monitor.MonitorContext.CONFLICT_POM_lock, monitor.MonitorContext.ACCUSATION_POM_lock, monitor.MonitorContext.STH_FULL_lock, monitor.MonitorContext.REV_FULL_lock, monitor.MonitorContext.TEMP_lock, monitor.Monitor_private_config.*, monitor.Monitor_public_config.*

guard monitor.MonitorContext: Storage_TEMP by TEMP_lock
guard monitor.MonitorContext: Storage_CONFLICT_POM by CONFLICT_POM_lock
guard monitor.MonitorContext: Storage_CONFLICT_POM_DELTA by CONFLICT_POM_lock
guard monitor.MonitorContext: Storage_ACCUSATION_POM by ACCUSATION_POM_lock
guard monitor.MonitorContext: Storage_ACCUSATION_POM_DELTA by ACCUSATION_POM_lock
guard monitor.MonitorContext: Storage_STH_FULL by STH_FULL_lock
guard monitor.MonitorContext: Storage_REV_FULL by REV_FULL_lock
guard monitor.MonitorContext: Storage_CRV by CRV_lock

# --- vocabulary
define mverified(c, g) = pure("(definition.Gossip_object).Verify", g, c.Monitor_crypto_config) == nil
define mconvicted(c, e) = exists(k, definition.Gossip_ID, has(*c.Storage_CONFLICT_POM, k) && k.Entity_URL == e)
define gid(p, t, e) = definition.Gossip_ID{Period: p, Type: t, Entity_URL: e}
define mpom(c, e) = has(*c.Storage_ACCUSATION_POM, gid(now_period, definition.ACC_FULL, e)) || mconvicted(c, e)
define islogger(c, u) = exists(i, int, 0 <= i && i < len(c.Monitor_public_config.All_Logger_URLs) && c.Monitor_public_config.All_Logger_URLs[i] == u)
define isca(c, u) = exists(i, int, 0 <= i && i < len(c.Monitor_public_config.All_CA_URLs) && c.Monitor_public_config.All_CA_URLs[i] == u)
define mpost(c, path) = cat("http://", c.Monitor_private_config.Gossiper_URL, path)
define ownsth(c, g) = g.Type == definition.STH_INIT && mverified(c, g) && islogger(c, g.Signer)
define ownrev(c, g) = g.Type == definition.REV_INIT && mverified(c, g) && isca(c, g.Signer) && exists(x, bitset.BitSet, srhok(c.Monitor_crypto_config, revsrh(g), g.Payload[0], g.Period, x, revbits(g)))
define cansign(k, m) = k.SignScheme == "rsa" && uf("err.rsasign", "Any", k.SignSecretKey, 5, sha256(m)) == nil && jsafe(k.SelfID)
define signedby(k, s, m) = rsa_wf(s) && rsa_id(s) == k.SelfID && uf("rsa.ok", "Bool", k.SignSecretKey.PublicKey, 5, sha256(m), rsa_sig(s))
define accusation(c, g) = g.Type == definition.ACC_INIT && g.Payload[1] == "" && g.Payload[2] == "" && g.Period == now_period && g.Signer == c.Monitor_crypto_config.SelfID && implies(cansign(c.Monitor_crypto_config, g.Payload[0]), signedby(c.Monitor_crypto_config, g.Signature[0], g.Payload[0]))
define accusedto(c, e) = exists(g, definition.Gossip_object, accusation(c, g) && g.Payload[0] == e && sent(mpost(c, "/gossip/acc_init"), enc(g)))

define mkept(m, k0) = forall(k, definition.Gossip_ID, implies(k != k0, has(m, k) == old(has(m, k)) && implies(has(m, k), m[k] == old(m[k]))))
define msame(m) = forall(k, definition.Gossip_ID, has(m, k) == old(has(m, k)) && implies(has(m, k), m[k] == old(m[k])))
define mput(m, o) = has(m, idof(o)) && m[idof(o)] == o && mkept(m, idof(o))
define mkeyed(m) = forall(k, definition.Gossip_ID, implies(has(m, k), idof(m[k]) == k))
define mcrvs(c) = forall(k, string, implies(has(c.Storage_CRV, k), c.Storage_CRV[k] != nil && allocated(c.Storage_CRV[k])))
define mcrvsep(c) = forall(k, string, forall(q, string, implies(has(c.Storage_CRV, k) && has(c.Storage_CRV, q) && k != q, c.Storage_CRV[k] != c.Storage_CRV[q])))
define crvhas(c, k, b) = has(c.Storage_CRV, k) && mem(bits(*c.Storage_CRV[k]), b)
define listed(l, m) = forall(k, definition.Gossip_ID, implies(has(m, k), exists(i, int, 0 <= i && i < len(l) && l[i] == m[k])))
define listedold(l, m) = forall(k, definition.Gossip_ID, implies(old(has(m, k)), exists(i, int, 0 <= i && i < len(l) && l[i] == old(m[k]))))
define onlyfrom(l, m) = forall(i, int, implies(0 <= i && i < len(l), exists(k, definition.Gossip_ID, has(m, k) && l[i] == m[k])))
define onlyfromold(l, m) = forall(i, int, implies(0 <= i && i < len(l), exists(k, definition.Gossip_ID, old(has(m, k)) && l[i] == old(m[k]))))
define savedas(path, v) = wrote(path, enc(v)) || wrote(path, uf("json.indent", "Str", enc(v)))

define sameobj(a, b) = a.Application == b.Application && a.Period == b.Period && a.Type == b.Type && a.Signer == b.Signer && a.Timestamp == b.Timestamp && a.Crypto_Scheme == b.Crypto_Scheme && a.Payload == b.Payload && a.Signature == b.Signature
define sameobjs(l, m) = len(l) == len(m) && forall(i, int, implies(0 <= i && i < len(l), sameobj(l[i], m[i])))

track monitor.Wait_then_accuse

func (*monitor.MonitorContext).StoreObject(c, o)
  requires ctx: mctx(c)
  laterassume ctx: mctx(c)
  laterassume crvs: mcrvs(c)
  locks [P14]
  ensures [P17] waiting: implies(o.Type == definition.STH_INIT || o.Type == definition.REV_INIT, mput(*c.Storage_TEMP, o))
  ensures [P17] con: ite(o.Type == definition.CON_INIT, mput(*c.Storage_CONFLICT_POM, o) && mput(*c.Storage_CONFLICT_POM_DELTA, o), msame(*c.Storage_CONFLICT_POM) && msame(*c.Storage_CONFLICT_POM_DELTA))
  ensures [P17] acc: ite(o.Type == definition.ACC_FULL, mput(*c.Storage_ACCUSATION_POM, o) && mput(*c.Storage_ACCUSATION_POM_DELTA, o), msame(*c.Storage_ACCUSATION_POM) && msame(*c.Storage_ACCUSATION_POM_DELTA))
  ensures [P17] sth: ite(o.Type == definition.STH_FULL, mput(*c.Storage_STH_FULL, o), msame(*c.Storage_STH_FULL))
  ensures [P17] rev: ite(o.Type == definition.REV_FULL, mput(*c.Storage_REV_FULL, o), msame(*c.Storage_REV_FULL))
  ensures [P18] armed: implies(o.Type == definition.REV_FULL, called("later"))
  later [P18] merged: implies(o.Type == definition.REV_FULL, forall(b, int, crvhas(c, o.Payload[0], b) == (mem(revbits(o), b) || old(crvhas(c, o.Payload[0], b)))) && has(c.Storage_CRV, o.Payload[0]))
  later [P18] others: forall(k, string, implies(k != o.Payload[0] && !(old(has(c.Storage_CRV, k)) && old(has(c.Storage_CRV, o.Payload[0])) && old(c.Storage_CRV[k]) == old(c.Storage_CRV[o.Payload[0]])), has(c.Storage_CRV, k) == old(has(c.Storage_CRV, k)) && forall(b, int, crvhas(c, k, b) == old(crvhas(c, k, b)))))
  later [P18] crvs: mcrvs(c)
  modifies map(*c.Storage_TEMP), map(*c.Storage_CONFLICT_POM), map(*c.Storage_CONFLICT_POM_DELTA), map(*c.Storage_ACCUSATION_POM), map(*c.Storage_ACCUSATION_POM_DELTA), map(*c.Storage_STH_FULL), map(*c.Storage_REV_FULL)

func (*monitor.MonitorContext).GetObject(c, id) (r)
  requires ctx: mctx(c)
  locks [P14]
  ensures [P14] done: true
  modifies nothing

func (*monitor.MonitorContext).GetObjectNumber(c, objtype) (r)
  requires ctx: mctx(c)
  locks [P14]
  ensures [P14] done: true
  modifies nothing

func (*monitor.MonitorContext).HasConflictPom(c, entity) (r)
  optional
  requires ctx: mctx(c)
  locks [P14]
  acquires [P14] monitor.MonitorContext.CONFLICT_POM_lock
  ensures hit: implies(r, exists(k, definition.Gossip_ID, has(*c.Storage_CONFLICT_POM, k) && k.Entity_URL == entity))
  ensures miss: implies(!r, forall(k, definition.Gossip_ID, implies(has(*c.Storage_CONFLICT_POM, k), k.Entity_URL != entity)))
  modifies nothing

func (*monitor.MonitorContext).Clean_Conflicting_Object(c)
  requires ctx: mctx(c)
  locks [P14]
  ensures [P17] sth: forall(k, definition.Gossip_ID, has(*c.Storage_STH_FULL, k) == (old(has(*c.Storage_STH_FULL, k)) && !mconvicted(c, k.Entity_URL)) && implies(has(*c.Storage_STH_FULL, k), (*c.Storage_STH_FULL)[k] == old((*c.Storage_STH_FULL)[k])))
  ensures [P17] rev: forall(k, definition.Gossip_ID, has(*c.Storage_REV_FULL, k) == (old(has(*c.Storage_REV_FULL, k)) && !mconvicted(c, k.Entity_URL)) && implies(has(*c.Storage_REV_FULL, k), (*c.Storage_REV_FULL)[k] == old((*c.Storage_REV_FULL)[k])))
  modifies map(*c.Storage_STH_FULL), map(*c.Storage_REV_FULL)

func (*monitor.MonitorContext).WipeStorage(c)
  requires ctx: mctx(c)
  locks [P14]
  ensures [P17] sth: forall(k, definition.Gossip_ID, has(*c.Storage_STH_FULL, k) == (old(has(*c.Storage_STH_FULL, k)) && k.Period == now_period) && implies(has(*c.Storage_STH_FULL, k), (*c.Storage_STH_FULL)[k] == old((*c.Storage_STH_FULL)[k])))
  ensures [P17] rev: forall(k, definition.Gossip_ID, has(*c.Storage_REV_FULL, k) == (old(has(*c.Storage_REV_FULL, k)) && k.Period == now_period) && implies(has(*c.Storage_REV_FULL, k), (*c.Storage_REV_FULL)[k] == old((*c.Storage_REV_FULL)[k])))
  ensures [P17] waiting: forall(k, definition.Gossip_ID, !has(*c.Storage_TEMP, k))
  modifies map(*c.Storage_TEMP), map(*c.Storage_STH_FULL), map(*c.Storage_REV_FULL)

func (*monitor.MonitorContext).LoadOneStorage(c, name, filepath) (err)
  requires ctx: mctx(c)
  locks [P14]
  ensures [P14] done: true
  modifies all

func (*monitor.MonitorContext).IsDuplicate(c, g) (r)
  requires ctx: mctx(c)
  locks [P14]
  ensures [P14] done: true
  modifies nothing

func (*monitor.MonitorContext).VerifySRH(ctx, srh, dCRV, CAID, Period) (r)
  requires ctx: mctx(ctx) && dCRV != nil
  locks [P14]
  ensures [P15,P18] sound: implies(r, srhok(ctx.Monitor_crypto_config, srh, CAID, Period, ite(has(ctx.Storage_CRV, CAID) && ctx.Storage_CRV[CAID] != nil, union(bits(*ctx.Storage_CRV[CAID]), bits(*dCRV)), bits(*dCRV)), bits(*dCRV)))
  ensures [P18] complete: implies(srhok(ctx.Monitor_crypto_config, srh, CAID, Period, ite(has(ctx.Storage_CRV, CAID) && ctx.Storage_CRV[CAID] != nil, union(bits(*ctx.Storage_CRV[CAID]), bits(*dCRV)), bits(*dCRV)), bits(*dCRV)), r)
  modifies nothing

func monitor.Get_SRH_and_DCRV(rev) (srh, d)
  aux
  ensures [P15,P18] srh: srh == revsrh(rev)
  ensures [P15,P18] delta: bits(d) == revbits(rev)
  modifies nothing

func monitor.IsLogger(c, loggerURL) (r)
  aux
  requires ctx: mctx(c)
  ensures [P15,P16] is: r == islogger(c, loggerURL)
  modifies nothing

func monitor.IsAuthority(c, authURL) (r)
  aux
  requires ctx: mctx(c)
  ensures [P15,P16] is: r == isca(c, authURL)
  modifies nothing

func monitor.Check_entity_pom(c, Accused) (r)
  requires ctx: mctx(c)
  locks [P14]
  ensures [P16] pom: r == mpom(c, Accused)
  modifies nothing

func monitor.Send_to_gossiper(c, g)
  requires ctx: mctx(c)
  requires [P15] kind: isinit(g.Type)
  requires [P15] sth: implies(g.Type == definition.STH_INIT, ownsth(c, g))
  requires [P15] rev: implies(g.Type == definition.REV_INIT, ownrev(c, g))
  requires [P16] accusation: implies(g.Type == definition.ACC_INIT, accusation(c, g) && !mpom(c, g.Payload[0]))
  locks [P14]
  ensures [P16] sth: implies(g.Type == definition.STH_INIT, sent(mpost(c, "/gossip/sth_init"), enc(g)))
  ensures [P16] rev: implies(g.Type == definition.REV_INIT, sent(mpost(c, "/gossip/rev_init"), enc(g)))
  ensures [P16] acc: implies(g.Type == definition.ACC_INIT, sent(mpost(c, "/gossip/acc_init"), enc(g)))
  modifies net

func monitor.AccuseEntity(c, Accused)
  requires ctx: mctx(c)
  locks [P14]
  ensures [P15] done: true
  ensures [P16] accuses: implies(!mpom(c, Accused), accusedto(c, Accused))
  ensures [P16] spares: implies(mpom(c, Accused), samenet())
  modifies net

func monitor.Wait_then_accuse(c, Accused, Entity_type)
  requires ctx: mctx(c)
  requires [P16] kind: Entity_type == "logger" || Entity_type == "ca"
  laterassume ctx: mctx(c)
  locks [P14]
  ensures [P16] armed: called("later")
  later [P16] logger: implies(Entity_type == "logger" && !has(*c.Storage_TEMP, gid(now_period, definition.STH_INIT, Accused)) && !mpom(c, Accused), accusedto(c, Accused))
  later [P16] ca: implies(Entity_type == "ca" && !has(*c.Storage_TEMP, gid(now_period, definition.REV_INIT, Accused)) && !mpom(c, Accused), accusedto(c, Accused))
  later [P16] answered: implies(Entity_type == "logger" && has(*c.Storage_TEMP, gid(now_period, definition.STH_INIT, Accused)), samenet())
  later [P16] answeredca: implies(Entity_type == "ca" && has(*c.Storage_TEMP, gid(now_period, definition.REV_INIT, Accused)), samenet())
  later [P16] convicted: implies(mpom(c, Accused), samenet())
  modifies nothing

func monitor.Process_valid_object(c, g)
  requires ctx: mctx(c)
  requires [P15] sth: implies(g.Type == definition.STH_INIT, mverified(c, g))
  requires [P15] rev: implies(g.Type == definition.REV_INIT, mverified(c, g) && exists(x, bitset.BitSet, srhok(c.Monitor_crypto_config, revsrh(g), g.Payload[0], g.Period, x, revbits(g))))
  locks [P14]
  ensures [P15] done: true
  ensures [P16] sth: implies(g.Type == definition.STH_INIT && islogger(c, g.Signer), sent(mpost(c, "/gossip/sth_init"), enc(g)))
  ensures [P16] rev: implies(g.Type == definition.REV_INIT && isca(c, g.Signer), sent(mpost(c, "/gossip/rev_init"), enc(g)))
  ensures [P16] init: implies(g.Type == definition.STH_INIT || g.Type == definition.REV_INIT, mctx(c) && old(mpom(c, g.Signer)) == mpom(c, g.Signer))
  modifies all

func monitor.QueryLoggers(c)
  goinline
  inline monitor.Process_valid_object
  requires ctx: mctx(c)
  requires cfg: forall(i, int, implies(0 <= i && i < len(c.Monitor_private_config.Logger_URLs), islogger(c, c.Monitor_private_config.Logger_URLs[i])))
  locks [P14]
  ensures [P15] done: true
  ensures [P16] queried: forall(i, int, implies(0 <= i && i < len(c.Monitor_private_config.Logger_URLs) && !mpom(c, c.Monitor_private_config.Logger_URLs[i]), called("monitor.Wait_then_accuse", c.Monitor_private_config.Logger_URLs[i], "logger") || exists(g, definition.Gossip_object, g.Type == definition.STH_INIT && mverified(c, g) && g.Signer == c.Monitor_private_config.Logger_URLs[i] && sent(mpost(c, "/gossip/sth_init"), enc(g)))))
  modifies net

func monitor.QueryAuthorities(c)
  goinline
  inline monitor.Process_valid_object
  requires ctx: mctx(c)
  requires cfg: forall(i, int, implies(0 <= i && i < len(c.Monitor_private_config.CA_URLs), isca(c, c.Monitor_private_config.CA_URLs[i])))
  locks [P14]
  ensures [P15] done: true
  ensures [P16] queried: forall(i, int, implies(0 <= i && i < len(c.Monitor_private_config.CA_URLs) && !mpom(c, c.Monitor_private_config.CA_URLs[i]), called("monitor.Wait_then_accuse", c.Monitor_private_config.CA_URLs[i], "ca") || exists(g, definition.Gossip_object, g.Type == definition.REV_INIT && mverified(c, g) && g.Signer == c.Monitor_private_config.CA_URLs[i] && sent(mpost(c, "/gossip/rev_init"), enc(g)))))
  modifies net

func monitor.handle_gossip_from_gossiper(c, w, r)
  requires ctx: mctx(c) && w != nil && r != nil && r.Body != nil
  locks [P14]
  ensures [P15] done: true
  modifies all

func monitor.GenerateUpdate(c) (r)
  requires ctx: mctx(c)
  locks [P14]
  ensures [P17] sths: listed(r.STHs, *c.Storage_STH_FULL)
  ensures [P17] sthsonly: onlyfrom(r.STHs, *c.Storage_STH_FULL)
  ensures [P17] revs: listed(r.REVs, *c.Storage_REV_FULL)
  ensures [P17] revsonly: onlyfrom(r.REVs, *c.Storage_REV_FULL)
  ensures [P17] cons: listedold(r.POM_CONs, *c.Storage_CONFLICT_POM_DELTA)
  ensures [P17] consonly: onlyfromold(r.POM_CONs, *c.Storage_CONFLICT_POM_DELTA)
  ensures [P17] accs: listedold(r.POM_ACCs, *c.Storage_ACCUSATION_POM_DELTA)
  ensures [P17] accsonly: onlyfromold(r.POM_ACCs, *c.Storage_ACCUSATION_POM_DELTA)
  ensures [P17] named: r.MonitorID == c.Monitor_crypto_config.SelfID && r.Period == now_period
  modifies map(*c.Storage_CONFLICT_POM_DELTA), map(*c.Storage_ACCUSATION_POM_DELTA)

func (*monitor.MonitorContext).SaveStorage(c, Period, update) (err)
  requires ctx: mctx(c)
  requires crvs: mcrvs(c)
  requires [P17] sths: forall(i, int, implies(0 <= i && i < len(update.STHs), !mconvicted(c, update.STHs[i].Payload[0])))
  requires [P17] revs: forall(i, int, implies(0 <= i && i < len(update.REVs), !mconvicted(c, update.REVs[i].Payload[0])))
  locks [P14]
  ensures [P17] saved: implies(err == nil, savedas(cat(c.StorageDirectory, "/Period_", Period, "/ClientUpdate.json"), update))
  modifies fs

func monitor.PeriodicTasks(c)
  requires ctx: mctx(c)
  requires cfgl: forall(i, int, implies(0 <= i && i < len(c.Monitor_private_config.Logger_URLs), islogger(c, c.Monitor_private_config.Logger_URLs[i])))
  requires cfgc: forall(i, int, implies(0 <= i && i < len(c.Monitor_private_config.CA_URLs), isca(c, c.Monitor_private_config.CA_URLs[i])))
  laterassume ctx: mctx(c) && mcrvs(c)
  laterassume cfgl: forall(i, int, implies(0 <= i && i < len(c.Monitor_private_config.Logger_URLs), islogger(c, c.Monitor_private_config.Logger_URLs[i])))
  laterassume cfgc: forall(i, int, implies(0 <= i && i < len(c.Monitor_private_config.CA_URLs), isca(c, c.Monitor_private_config.CA_URLs[i])))
  laterassume keyed: mkeyed(*c.Storage_STH_FULL) && mkeyed(*c.Storage_REV_FULL)
  locks [P14]
  ensures [P15,P16,P17] done: true
  modifies net

func monitor.PrepareClientUpdate(context, filepath) (r, err)
  ensures [P17] read: implies(err == nil, r != nil && decok(monitor.ClientUpdate, uf("filecontent", "Str", filepath)) && r.Period == dec(monitor.ClientUpdate, uf("filecontent", "Str", filepath)).Period && r.MonitorID == dec(monitor.ClientUpdate, uf("filecontent", "Str", filepath)).MonitorID)
  ensures [P17] sths: implies(err == nil, sameobjs(r.STHs, dec(monitor.ClientUpdate, uf("filecontent", "Str", filepath)).STHs))
  ensures [P17] revs: implies(err == nil, sameobjs(r.REVs, dec(monitor.ClientUpdate, uf("filecontent", "Str", filepath)).REVs))
  ensures [P17] cons: implies(err == nil, sameobjs(r.POM_CONs, dec(monitor.ClientUpdate, uf("filecontent", "Str", filepath)).POM_CONs))
  ensures [P17] accs: implies(err == nil, sameobjs(r.POM_ACCs, dec(monitor.ClientUpdate, uf("filecontent", "Str", filepath)).POM_ACCs))
  modifies nothing

func monitor.requestupdate(c, w, r)
  requires ctx: mctx(c) && w != nil && r != nil && r.Body != nil
  locks [P14]
  ensures [P17] done: true
  modifies reply

func monitor.InitializeMonitorContext(public_config_path, private_config_path, crypto_config_path, storageID) (r)
  ensures [P14] ready: r != nil && mstores(r) && mlocks(r) && mmaps(r) && mdistinct(r)
  ensures [P14] apart: r.CONFLICT_POM_lock != r.STH_FULL_lock && r.CONFLICT_POM_lock != r.REV_FULL_lock && r.TEMP_lock != r.ACCUSATION_POM_lock
  ensures [P17] empty: forall(k, definition.Gossip_ID, !has(*r.Storage_TEMP, k) && !has(*r.Storage_CONFLICT_POM, k) && !has(*r.Storage_ACCUSATION_POM, k) && !has(*r.Storage_CONFLICT_POM_DELTA, k) && !has(*r.Storage_ACCUSATION_POM_DELTA, k) && !has(*r.Storage_STH_FULL, k) && !has(*r.Storage_REV_FULL, k))
  ensures [P18] empty: mcrvs(r) && mcrvsep(r)
  modifies all
