# the client's databases
define cctx(c) = c != nil && c.Crypto != nil && c.Config != nil && c.STH_DB_RWLock != nil && c.CRV_DB_RWLock != nil && c.POM_DB_RWLock != nil
define ctng(cert) = pure("CA.ParseCTngextension", cert)
define sthof(o) = dec(definition.STH, unhex(o.Payload[1]))
define sthwf(o) = decok(definition.STH, unhex(o.Payload[1]))
define vouches(c, cert, li) = !has(c.POM_database, li.STH.Payload[0]) && pure("(definition.Gossip_object).Verify", li.STH, c.Crypto) == nil && sthwf(li.STH) && has(c.STH_database, cat(li.STH.Payload[0], "@", li.STH.Period)) && c.STH_database[cat(li.STH.Payload[0], "@", li.STH.Period)] == sthof(li.STH).RootHash && unhex(sthof(li.STH).RootHash) != "" && li.POI.Poi != nil && uf("mt.ok", "Bool", str(cert.RawSubject), li.POI.Poi, unhex(sthof(li.STH).RootHash))
define vouched(c, cert) = exists(i, int, 0 <= i && i < len(ctng(cert).LoggerInformation) && vouches(c, cert, ctng(cert).LoggerInformation[i]))
define revoked(c, cert) = mem(*c.CRV_database[cert.Issuer.CommonName], ctng(cert).SequenceNumber.RID)

immutable client.ClientContext.STH_DB_RWLock, client.ClientContext.CRV_DB_RWLock, client.ClientContext.POM_DB_RWLock, client.ClientContext.Crypto, client.ClientContext.Config
guard client.ClientContext: STH_database by STH_DB_RWLock
guard client.ClientContext: CRV_database by CRV_DB_RWLock
guard client.ClientContext: POM_database by POM_DB_RWLock

func CA.ParseCTngextension(cert) (r)
  pure
  requires cert: cert != nil
  nopanic [P22]
  candidate [P12,P21] parsed: forall(i, int, implies(0 <= i && done(i) && isctng(cert.Extensions[i]) && extok(str(cert.Extensions[i].Value)) && forall(j, int, implies(i < j && done(j), !isctng(cert.Extensions[j]))), extinfo(ctngext, extdoc(str(cert.Extensions[i].Value))) && forall(k, int, implies(0 <= k && k < len(ctngext.LoggerInformation), sameobj(ctngext.LoggerInformation[k].STH, extsth(extdoc(str(cert.Extensions[i].Value)), k))))))
  shows [P12,P21] parsed: forall(i, int, implies(0 <= i && i < len(cert.Extensions) && isctng(cert.Extensions[i]) && extok(str(cert.Extensions[i].Value)) && forall(j, int, implies(i < j && j < len(cert.Extensions), !isctng(cert.Extensions[j]))), extinfo(r, extdoc(str(cert.Extensions[i].Value))) && forall(k, int, implies(0 <= k && k < len(r.LoggerInformation), sameobj(r.LoggerInformation[k].STH, extsth(extdoc(str(cert.Extensions[i].Value)), k))))))
  modifies nothing

func (*client.ClientContext).VerifyCTngextension(ctx, cert) (r)
  requires ctx: cctx(ctx) && cert != nil
  requires crvs: forall(k, string, implies(has(ctx.CRV_database, k), ctx.CRV_database[k] != nil))
  locks [P14]
  ensures [P12] vouched: implies(r, vouched(ctx, cert))
  ensures [P12] known: implies(r, has(ctx.CRV_database, cert.Issuer.CommonName))
  ensures [P12] unrevoked: implies(r, !revoked(ctx, cert))
  ensures [P12] accepts: implies(vouched(ctx, cert) && has(ctx.CRV_database, cert.Issuer.CommonName) && !revoked(ctx, cert), r)
  modifies [P12] nothing

# --- revocation: the CA's own signature over (period, hash of the updated CRV, hash of the delta)
define bin(b) = uf("bits.bin", "Str", b)
define srhmsg(period, x, d) = sha256(cat(period, sha256(bin(x)), sha256(bin(d))))
define srhok(c, srh, id, period, x, d) = rsa_wf(srh) && rsa_id(srh) == id && uf("rsa.ok", "Bool", c.SignPublicMap[id], 5, sha256(srhmsg(period, x, d)), rsa_sig(srh))

func (*client.ClientContext).VerifySRH(ctx, srh, dCRV, CAID, Period) (r)
  requires ctx: cctx(ctx) && dCRV != nil
  ensures [P13] sound: implies(r, srhok(ctx.Crypto, srh, CAID, Period, ite(has(ctx.CRV_database, CAID) && ctx.CRV_database[CAID] != nil, union(bits(*ctx.CRV_database[CAID]), bits(*dCRV)), bits(*dCRV)), bits(*dCRV)))
  ensures [P13] complete: implies(srhok(ctx.Crypto, srh, CAID, Period, ite(has(ctx.CRV_database, CAID) && ctx.CRV_database[CAID] != nil, union(bits(*ctx.CRV_database[CAID]), bits(*dCRV)), bits(*dCRV)), bits(*dCRV)), r)
  modifies nothing

define revsrh(g) = ite(decok(CA.Revocation, g.Payload[2]), jstr(g.Payload[2], "srh"), uf("json.undec.srh.Str", "Str", g.Payload[2]))
define revz(g) = ite(decok(CA.Revocation, g.Payload[2]), uf("json.b64", "Str", jsub(g.Payload[2], "delta_crv")), uf("json.undec64.delta_crv", "Str", g.Payload[2]))
define revraw(g) = ite(uf("err.gzip", "Any", revz(g)) == nil && uf("err.gunzip", "Any", revz(g)) == nil, uf("gunzip", "Str", revz(g)), "")
define revbits(g) = ite(uf("err.bitsunbin", "Any", revraw(g)) == nil, uf("bits.unbin", bitset.BitSet, revraw(g)), uf("bits.partial", bitset.BitSet, bitset.BitSet{}, revraw(g)))
define revok(c, g) = pure("(definition.Gossip_object).Verify", g, c.Crypto) == nil && g.Type == definition.REV_FULL
define sthok(c, g) = pure("(definition.Gossip_object).Verify", g, c.Crypto) == nil && g.Type == definition.STH_FULL && sthwf(g)
define accok(c, g) = pure("(definition.Gossip_object).Verify", g, c.Crypto) == nil && g.Type == definition.ACC_FULL
define conok(c, g) = pure("(definition.Gossip_object).Verify", g, c.Crypto) == nil && g.Type == definition.CON_INIT
define sthkey(g) = cat(g.Payload[0], "@", g.Period)

func client.Get_SRH_and_DCRV(rev) (srh, d)
  aux [P13]
  ensures [P13] srh: srh == revsrh(rev)
  ensures [P13] delta: bits(d) == revbits(rev)
  modifies nothing

func (*client.ClientContext).HandleUpdate(ctx, update, verify, newmonitor) (r)
  requires ctx: cctx(ctx) && ctx.CRV_database != nil && ctx.STH_database != nil && ctx.POM_database != nil
  requires crvs: forall(k, string, implies(has(ctx.CRV_database, k), ctx.CRV_database[k] != nil && allocated(ctx.CRV_database[k])))
  requires sep: forall(k, string, forall(q, string, implies(has(ctx.CRV_database, k) && has(ctx.CRV_database, q) && k != q, ctx.CRV_database[k] != ctx.CRV_database[q])))
  locks [P14]
  inline [P14] (*client.ClientContext).VerifySRH
  ensures [P13] sep: forall(k, string, forall(q, string, implies(has(ctx.CRV_database, k) && has(ctx.CRV_database, q) && k != q, ctx.CRV_database[k] != ctx.CRV_database[q])))
  ensures [P13] crvkept: forall(k, string, forall(b, int, implies(old(has(ctx.CRV_database, k)) && old(mem(bits(*ctx.CRV_database[k]), b)), has(ctx.CRV_database, k) && mem(bits(*ctx.CRV_database[k]), b))))
  ensures [P13] crvnew: forall(k, string, forall(b, int, implies(has(ctx.CRV_database, k) && mem(bits(*ctx.CRV_database[k]), b) && !(old(has(ctx.CRV_database, k)) && old(mem(bits(*ctx.CRV_database[k]), b))), exists(i, int, exists(x, bitset.BitSet, 0 <= i && i < len(update.REVs) && update.REVs[i].Payload[0] == k && implies(verify, revok(ctx, update.REVs[i])) && mem(revbits(update.REVs[i]), b) && srhok(ctx.Crypto, revsrh(update.REVs[i]), k, update.REVs[i].Period, x, revbits(update.REVs[i])))))))
  ensures [P13] crvall: implies(r, forall(i, int, forall(b, int, implies(0 <= i && i < len(update.REVs) && mem(revbits(update.REVs[i]), b), has(ctx.CRV_database, update.REVs[i].Payload[0]) && mem(bits(*ctx.CRV_database[update.REVs[i].Payload[0]]), b)))))
  ensures [P13] sthnew: implies(verify, forall(k, string, implies(has(ctx.STH_database, k) && !(old(has(ctx.STH_database, k)) && old(ctx.STH_database[k]) == ctx.STH_database[k]), exists(i, int, 0 <= i && i < len(update.STHs) && sthok(ctx, update.STHs[i]) && sthkey(update.STHs[i]) == k && sthof(update.STHs[i]).RootHash == ctx.STH_database[k]))))
  ensures [P13] sthkept: forall(k, string, implies(old(has(ctx.STH_database, k)), has(ctx.STH_database, k)))
  ensures [P13] sthall: implies(r, forall(i, int, implies(0 <= i && i < len(update.STHs), has(ctx.STH_database, sthkey(update.STHs[i])))))
  ensures [P13] pomnew: implies(verify, forall(k, string, implies(has(ctx.POM_database, k) && !old(has(ctx.POM_database, k)), exists(i, int, 0 <= i && i < len(update.POM_ACCs) && accok(ctx, update.POM_ACCs[i]) && update.POM_ACCs[i].Payload[0] == k) || exists(i, int, 0 <= i && i < len(update.POM_CONs) && conok(ctx, update.POM_CONs[i]) && update.POM_CONs[i].Payload[0] == k))))
  ensures [P13] pomkept: forall(k, string, implies(old(has(ctx.POM_database, k)), has(ctx.POM_database, k)))
  ensures [P13] accall: implies(r, forall(i, int, implies(0 <= i && i < len(update.POM_ACCs), has(ctx.POM_database, update.POM_ACCs[i].Payload[0]))))
  ensures [P13] conall: implies(r, forall(i, int, implies(0 <= i && i < len(update.POM_CONs), has(ctx.POM_database, update.POM_CONs[i].Payload[0]))))
  ensures [P13] crvs: forall(k, string, implies(has(ctx.CRV_database, k), ctx.CRV_database[k] != nil && allocated(ctx.CRV_database[k])))
  modifies all
