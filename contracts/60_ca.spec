# the CA
define cactx(c) = c != nil && c.CRV.CRV_current != c.CRV.CRV_pre_update && allocated(c.CRV.CRV_current) && allocated(c.CRV.CRV_pre_update) && c.CA_private_config != nil && c.CA_public_config != nil && c.CA_crypto_config != nil && c.CRV != nil && c.CRV.CRV_current != nil && c.CRV.CRV_pre_update != nil && c.REV_storage != nil && c.REV_storage_fake != nil && c.STH_storage != nil && c.CurrentCertificatePool != nil && c.Request_Count_lock != nil && c.STH_storage_lock != nil && c.Certpool_lock != nil && c.Client != nil && c.REV_storage != c.REV_storage_fake && c.REV_storage != c.STH_storage && c.REV_storage_fake != c.STH_storage

immutable CA.CAContext.CA_private_config, CA.CAContext.CA_public_config, CA.CAContext.CA_crypto_config, CA.CAContext.Request_Count_lock, CA.CAContext.STH_storage_lock, CA.CAContext.Certpool_lock, CA.CAContext.CRV, CA.CA_private_config.*, CA.CA_public_config.*

guard CA.CAContext: REV_storage by Request_Count_lock
guard CA.CAContext: REV_storage_fake by Request_Count_lock
guard CA.CAContext: STH_storage by STH_storage_lock

guard CA.CAContext: CurrentCertificatePool by Certpool_lock swappable

define revdelta(c) = sym(bits(*c.CRV.CRV_current), bits(*c.CRV.CRV_pre_update))
define careg(c) = c.CA_crypto_config.SelfID == c.CA_private_config.Signer && c.CA_crypto_config.SignPublicMap[c.CA_crypto_config.SelfID] == c.CA_crypto_config.SignSecretKey.PublicKey && has(c.CA_crypto_config.SignPublicMap, c.CA_crypto_config.SelfID)

func (*CA.CRV).GetDeltaCRV(crv) (r)
  requires crv: crv != nil && crv.CRV_current != nil && crv.CRV_pre_update != nil
  ensures [P19] delta: str(r) == uf("bits.bin", "Str", sym(bits(*crv.CRV_current), bits(*crv.CRV_pre_update)))
  modifies nothing

func (*CA.CRV).Revoke(crv, index)
  requires crv: crv != nil && crv.CRV_current != nil && index >= 0
  ensures [P19] revoked: mem(bits(*crv.CRV_current), index)
  ensures [P19] others: forall(b, int, implies(b != index, mem(bits(*crv.CRV_current), b) == old(mem(bits(*crv.CRV_current), b))))
  modifies cell(crv.CRV_current)

func (*CA.CRV).MassRevoke(crv, ratio)
  requires crv: crv != nil && crv.CRV_current != nil
  ensures [P19] kept: forall(b, int, implies(old(mem(bits(*crv.CRV_current), b)), mem(bits(*crv.CRV_current), b)))
  modifies cell(crv.CRV_current)

func CA.Generate_Revocation(c, Period, REV_type) (r)
  requires ctx: cactx(c) && c.OnlineDuration >= 0
  ensures [P19] kind: r.Type == definition.REV_INIT && r.Application == "CTng" && r.Crypto_Scheme == "RSA"
  ensures [P19] period: r.Period == Period
  ensures [P19] signer: r.Signer == c.CA_private_config.Signer && r.Payload[0] == c.CA_private_config.Signer && r.Payload[1] == "CRV"
  ensures [P19] delta: implies(REV_type == 0, revbits(r) == revdelta(c))
  ensures [P19] valid: implies(careg(c) && c.CA_crypto_config.SignScheme == "rsa" && cansign(c.CA_crypto_config, payload(r)) && c.CA_private_config.Signer != "", pure("(definition.Gossip_object).Verify", r, c.CA_crypto_config) == nil)
  ensures [P19] srh: implies(REV_type == 0 && careg(c) && cansign(c.CA_crypto_config, srhmsg(Period, bits(*c.CRV.CRV_current), revdelta(c))), srhok(c.CA_crypto_config, revsrh(r), r.Signer, Period, bits(*c.CRV.CRV_current), revbits(r)))
  modifies nothing

func CA.Genrate_Unsigned_PreCert(host, validFor, isCA, issuer, subject, ctx) (r)
  requires ctx: ctx != nil
  ensures nonnil: r != nil && fresh(r)
  ensures counted: ctx.CertCounter == old(ctx.CertCounter) + 1
  ensures [P21] one: len(r.ExtraExtensions) == 1
  ensures [P21] rid: uf("json.int", "Int", jsub(jsub(extdoc(str(r.ExtraExtensions[0].Value)), "sequencenumber"), "rid")) == old(ctx.CertCounter)
  ensures [P21] decodes: extok(str(r.ExtraExtensions[0].Value))
  modifies field(ctx.CertCounter)

func CA.Sign_certificate(cert, root_cert, root, pub, priv) (r)
  requires cert: cert != nil
  ensures nonnil: r != nil
  modifies field(cert.SubjectKeyId)

func CA.Generate_Signed_PreCert(c, host, validFor, isCA, issuer, subject, root_cert, root, pub, priv) (r)
  aux
  requires ctx: c != nil
  ensures nonnil: r != nil
  ensures counted: c.CertCounter == old(c.CertCounter) + 1
  modifies field(c.CertCounter)

func CA.Generate_N_Signed_PreCert_with_priv(c, N, host, validFor, isCA, issuer, root_cert, root, priv, global_offset) (certs, privs)
  aux
  requires ctx: c != nil
  ensures nonnil: forall(i, int, implies(0 <= i && i < len(certs), certs[i] != nil))
  modifies field(c.CertCounter)

func util.PeriodString(period) (r)
  pure
  nopanic [P20,P22]
  ensures [P19,P20] short: implies(period % 60 >= 0 && period % 60 < 10, r == cat("0", uf("itoa", "Str", period % 60)))
  ensures [P19,P20] long: implies(period % 60 > 9, r == uf("itoa", "Str", period % 60))
  modifies nothing

define nextperiod() = pure("util.PeriodString", uf("atoi", "Int", now_period) + 1)

track CA.PeriodicTask

define carev(c, g, p) = g.Type == definition.REV_INIT && g.Period == p && g.Signer == c.CA_private_config.Signer && g.Payload[0] == c.CA_private_config.Signer && g.Payload[1] == "CRV"

func CA.PeriodicTask(ctx)
  locks [P22]
  requires pool: poolok(ctx.CurrentCertificatePool)
  laterassume pool: poolok(ctx.CurrentCertificatePool)
  requires ctx: cactx(ctx) && ctx.OnlineDuration >= 0
  laterassume ctx: cactx(ctx) && ctx.OnlineDuration >= 0
  ensures [P19] armed: called("later", 2)
  later [P19] stored: implies(!called("CA.PeriodicTask"), has(ctx.REV_storage, nextperiod()))
  later [P19] storedrev: implies(!called("CA.PeriodicTask"), carev(ctx, ctx.REV_storage[nextperiod()], nextperiod()))
  later [P19] storeddelta: implies(!called("CA.PeriodicTask"), forall(g, definition.Gossip_object, implies(g == ctx.REV_storage[nextperiod()], revbits(g) == sym(bits(*ctx.CRV.CRV_current), old(bits(*ctx.CRV.CRV_pre_update))))))
  later [P19] kept: implies(!called("CA.PeriodicTask"), forall(k, string, implies(k != nextperiod(), has(ctx.REV_storage, k) == old(has(ctx.REV_storage, k)) && ctx.REV_storage[k] == old(ctx.REV_storage[k]))))
  later [P19] grows: implies(!called("CA.PeriodicTask"), forall(b, int, implies(old(mem(bits(*ctx.CRV.CRV_current), b)), mem(bits(*ctx.CRV.CRV_current), b))))
  later [P19] announced: implies(!called("CA.PeriodicTask"), ctx.CRV.CRV_pre_update != nil && ctx.CRV.CRV_pre_update != ctx.CRV.CRV_current && bits(*ctx.CRV.CRV_pre_update) == bits(*ctx.CRV.CRV_current))
  modifies all

func CA.requestREV(c, w, r)
  requires ctx: cactx(c) && w != nil && r != nil
  requires type: c.CA_Type == 0 || c.MisbehaviorInterval > 0
  locks [P22]
  nopanic [P22]
  ensures [P19] served: implies(c.CA_Type == 0, replied(enc(c.REV_storage[now_period])))
  ensures [P22] done: true
  modifies reply, field(c.Request_Count)

define cahassth(c, g) = g.Type == definition.STH_INIT && pure("(definition.Gossip_object).Verify", g, c.CA_crypto_config) == nil

func CA.receive_sth(c, w, r)
  requires ctx: cactx(c) && w != nil && r != nil && r.Body != nil
  locks [P22]
  nopanic [P22]
  ensures [P21] verified: forall(k, string, implies(has(c.STH_storage, k), old(has(c.STH_storage, k)) && c.STH_storage[k] == old(c.STH_storage[k]) || k == c.STH_storage[k].Signer && cahassth(c, c.STH_storage[k])))
  ensures [P21] kept: forall(k, string, implies(old(has(c.STH_storage, k)), has(c.STH_storage, k)))
  modifies map(c.STH_storage), reply

func CA.wipeSTHstorage(c)
  requires ctx: cactx(c)
  nopanic [P22]
  locks [P22]
  ensures [P21] empty: forall(k, string, !has(c.STH_storage, k))
  modifies map(c.STH_storage)

# --- the CTng extension of a certificate
define extcode(x) = uf("asn1.raw", "Str", 4, enc(x))
define extdoc(s) = uf("asn1.bytes", "Str", s)

func CA.EncodeCTngExtension(ctngext) (r)
  nopanic [P22]
  ensures [P21] code: str(r) == extcode(ctngext)
  ensures [P21] new: fresh(r)
  modifies nothing

# what a decoded extension says of the document it was decoded from
define extinfo(r, d) = r.SequenceNumber.RID == uf("json.int", "Int", jsub(jsub(d, "sequencenumber"), "rid")) && len(r.LoggerInformation) == jlen(jsub(d, "loggerinformation"))
define extsth(d, k) = dec(definition.Gossip_object, jsub(uf("json.at", "Str", jsub(d, "loggerinformation"), k), "sth"))
define extok(s) = uf("err.asn1", "Any", s) == nil && decok(CA.CTngExtension, extdoc(s))
define isctng(x) = uf("oid.equal", "Bool", seq(x.Id), seq(CA.OIDCTngExtension))

func CA.DecodeCTngExtension(ctngextasn1bytes) (r)
  aux
  nopanic [P22]
  ensures [P12,P21] rid: implies(extok(str(ctngextasn1bytes)), extinfo(r, extdoc(str(ctngextasn1bytes))))
  ensures [P12,P21] sths: implies(extok(str(ctngextasn1bytes)), forall(k, int, implies(0 <= k && k < len(r.LoggerInformation), sameobj(r.LoggerInformation[k].STH, extsth(extdoc(str(ctngextasn1bytes)), k)))))
  modifies nothing

func CA.GetRIDfromCert(cert) (r)
  requires cert: cert != nil
  ensures [P12,P21] rid: r == ctng(cert).SequenceNumber.RID
  modifies nothing

define haslogger(cert, id) = exists(i, int, 0 <= i && i < len(ctng(cert).LoggerInformation) && ctng(cert).LoggerInformation[i].STH.Signer == id)

define certwf(cert) = forall(i, int, implies(0 <= i && i < len(cert.Extensions), allocated(cert.Extensions[i].Value)))

func CA.UpdateCTngExtension(cert, newloggerinfo) (r)
  requires cert: cert != nil
  requires [P21] exts: allocated(cert.Extensions)
  requires [P21] wf: certwf(cert)
  requires [P21] proof: uf("mt.ok", "Bool", str(cert.RawSubject), newloggerinfo.POI.Poi, unhex(sthof(newloggerinfo.STH).RootHash))
  nopanic [P22]
  ensures [P21,P22] same: r == cert
  ensures [P21] once: implies(old(haslogger(cert, newloggerinfo.STH.Signer)), forall(i, int, implies(0 <= i && i < len(cert.Extensions), cert.Extensions[i] == old(cert.Extensions[i]))))
  ensures [P21] others: len(cert.Extensions) == old(len(cert.Extensions)) && forall(i, int, implies(0 <= i && i < len(cert.Extensions) && !old(isctng(cert.Extensions[i])), cert.Extensions[i] == old(cert.Extensions[i])))
  candidate [P21] value: forall(i, int, implies(0 <= i && done(i) && old(isctng(cert.Extensions[i])), str(cert.Extensions[i].Value) == extcode(CTngExtension)))
  ensures [P21] rid: forall(i, int, implies(0 <= i && i < len(cert.Extensions) && old(isctng(cert.Extensions[i])) && !old(haslogger(cert, newloggerinfo.STH.Signer)), extok(str(cert.Extensions[i].Value)) && uf("json.int", "Int", jsub(jsub(extdoc(str(cert.Extensions[i].Value)), "sequencenumber"), "rid")) == old(ctng(cert).SequenceNumber.RID)))
  ensures [P21] added: forall(i, int, implies(0 <= i && i < len(cert.Extensions) && old(isctng(cert.Extensions[i])) && !old(haslogger(cert, newloggerinfo.STH.Signer)), jlen(jsub(extdoc(str(cert.Extensions[i].Value)), "loggerinformation")) == old(len(ctng(cert).LoggerInformation)) + 1 && sameobj(extsth(extdoc(str(cert.Extensions[i].Value)), old(len(ctng(cert).LoggerInformation))), newloggerinfo.STH)))
  modifies elems(cert.Extensions)

define capool(c) = c.CurrentCertificatePool.certs
define certswf(c) = forall(i, int, implies(0 <= i && i < len(capool(c)), allocated(capool(c)[i].Extensions) && certwf(capool(c)[i])))
define poibody(r) = uf("readall", "Str", r.Body)
define extskept(c) = forall(i, int, implies(0 <= i && i < len(old(capool(c))), forall(j, int, implies(0 <= j && j < len(old(capool(c)[i].Extensions)), old(capool(c)[i]).Extensions[j] == old(capool(c)[i].Extensions[j])))))

track CA.UpdateCTngExtension

func CA.receive_poi(c, w, r)
  requires ctx: cactx(c) && w != nil && r != nil && r.Body != nil
  requires pool: poolok(c.CurrentCertificatePool)
  requires [P21] certs: certswf(c)
  locks [P22]
  nopanic [P22]
  ensures [P21] unknown: implies(!has(c.STH_storage, jstr(poibody(r), "loggerid")), extskept(c))
  ensures [P21] which: implies(called("CA.UpdateCTngExtension", callarg("CA.UpdateCTngExtension", 1)), callarg("CA.UpdateCTngExtension", 1).STH == c.STH_storage[jstr(poibody(r), "loggerid")])
  ensures [P21] pool: len(capool(c)) == old(len(capool(c))) && forall(i, int, implies(0 <= i && i < len(capool(c)), capool(c)[i] == old(capool(c)[i])))
  modifies all

func CA.GetPrecertfromCert(cert) (r)
  requires cert: cert != nil
  ensures nonnil: r != nil
  ensures [P21] one: len(r.Extensions) == 1
  ensures [P21] rid: extok(str(r.Extensions[0].Value)) && uf("json.int", "Int", jsub(jsub(extdoc(str(r.Extensions[0].Value)), "sequencenumber"), "rid")) == ctng(cert).SequenceNumber.RID
  ensures [P21] empty: jlen(jsub(extdoc(str(r.Extensions[0].Value)), "loggerinformation")) == 0
  modifies nothing

func CA.Send_Signed_PreCert_To_Logger(c, precert, logger)
  requires ctx: c != nil && c.Client != nil && precert != nil
  nopanic [P22]
  ensures [P20] sent: sent(cat("http://", logger, "/Logger/receive-precerts"), str(precert.Raw))
  modifies net

func CA.Send_Signed_PreCert_To_Loggers(c, precert, loggers)
  requires ctx: c != nil && c.Client != nil && precert != nil
  nopanic [P22]
  ensures [P20] sent: forall(i, int, implies(0 <= i && i < len(loggers), sent(cat("http://", loggers[i], "/Logger/receive-precerts"), str(precert.Raw))))
  modifies net

func CA.CRV_init() (r)
  ensures ready: r != nil && fresh(r) && r.CRV_current != nil && r.CRV_pre_update != nil && r.CRV_current != r.CRV_pre_update
  ensures [P19] empty: forall(b, int, !mem(bits(*r.CRV_current), b) && !mem(bits(*r.CRV_pre_update), b))
  modifies nothing

func CA.Generate_Root_Certificate(ctx) (r)
  requires ctx: ctx != nil
  ensures nonnil: r != nil
  ensures [P21] counter: ctx.CertCounter >= old(ctx.CertCounter)
  modifies field(ctx.CertCounter)

func CA.InitializeCAContext(public_config_path, private_config_file_path, crypto_config_path) (r)
  ensures [P19,P21,P22] ready: implies(r.CA_public_config != nil && r.CA_private_config != nil, cactx(r))
  ensures [P19] nothing: r.CA_Type == 0 && forall(k, string, !has(r.REV_storage, k))
  ensures [P21] pool: poolok(r.CurrentCertificatePool) && r.CertCounter >= 0 && forall(k, string, !has(r.STH_storage, k))
  modifies all
