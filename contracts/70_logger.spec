# the logger
define lctx(c) = c != nil && c.Logger_private_config != nil && c.Logger_public_config != nil && c.Logger_crypto_config != nil && c.CurrentPrecertPool != nil && c.STH_storage != nil && c.STH_storage_fake != nil && c.STH_storage != c.STH_storage_fake && c.Request_Count_lock != nil && c.CertPool_lock != nil && c.Client != nil

immutable Logger.LoggerContext.Logger_private_config, Logger.LoggerContext.Logger_public_config, Logger.LoggerContext.Logger_crypto_config, Logger.LoggerContext.Request_Count_lock, Logger.LoggerContext.CertPool_lock, Logger.Logger_private_config.*, Logger.Logger_public_config.*

guard Logger.LoggerContext: STH_storage by Request_Count_lock
guard Logger.LoggerContext: STH_storage_fake by Request_Count_lock
guard Logger.LoggerContext: CurrentPrecertPool by CertPool_lock swappable

define logreg(c) = c.Logger_crypto_config.SignScheme == "rsa" && c.Logger_private_config.Signer != "" && has(c.Logger_crypto_config.SignPublicMap, c.Logger_private_config.Signer) && c.Logger_crypto_config.SignPublicMap[c.Logger_private_config.Signer] == c.PrivateKey.PublicKey
define lcansign(c, m) = uf("err.rsasign", "Any", c.PrivateKey, 5, sha256(m)) == nil && jsafe(c.Logger_private_config.Signer)

func (*crypto.Certblock).Serialize(c) (r, err)
  unitonly
  nopanic [P20,P22]
  requires nonnil: c != nil
  ensures leaf: str(r) == str(c.Content.RawSubject) && err == nil
  modifies nothing

func crypto.GenerateDataBlocks(certs) (blocks)
  optional
  nopanic [P20,P22]
  candidate [P20,P22] kind: forall(i, int, implies(0 <= i && i < len(dataBlocks), istype(*crypto.Certblock, dataBlocks[i])))
  candidate [P20,P22] alloc: forall(i, int, implies(0 <= i && i < len(dataBlocks), unbox(*crypto.Certblock, dataBlocks[i]) != nil && allocated(unbox(*crypto.Certblock, dataBlocks[i]))))
  candidate [P20,P22] content: forall(i, int, implies(0 <= i && i < len(dataBlocks), unbox(*crypto.Certblock, dataBlocks[i]).Content == certs[i]))
  ensures [P20,P22] count: len(blocks) == len(certs)
  ensures [P20,P22] each: forall(i, int, implies(0 <= i && i < len(certs), istype(*crypto.Certblock, blocks[i]) && unbox(*crypto.Certblock, blocks[i]) != nil && unbox(*crypto.Certblock, blocks[i]).Content == certs[i]))
  modifies nothing

func crypto.GenerateMerkleTree(blocks) (tree, err)
  optional
  nopanic [P20,P22]
  requires blocks: forall(i, int, implies(0 <= i && i < len(blocks), istype(*crypto.Certblock, blocks[i]) && unbox(*crypto.Certblock, blocks[i]) != nil))
  candidate [P20,P22] count: len(new_MerkleTree.Proofs) <= len(blocks)
  candidate [P20,P22] each: forall(i, int, implies(0 <= i && i < len(blocks), done(i) == (i < len(new_MerkleTree.Proofs))))
  candidate [P20] some: forall(i, int, implies(0 <= i && i < len(new_MerkleTree.Proofs), new_MerkleTree.Proofs[i] != nil && allocated(new_MerkleTree.Proofs[i])))
  candidate [P20] empty: forall(i, int, implies(0 <= i && i < len(new_MerkleTree.Proofs), len(new_MerkleTree.Proofs[i].Siblings) == 0))
  candidate [P20] hash: str(new_MerkleTree.Root) != ""
  candidate [P20] leaf: implies(len(blocks) == 1, str(new_MerkleTree.Root) == sha256(str(unbox(*crypto.Certblock, blocks[0]).Content.RawSubject)))
  ensures [P20,P22] tree: tree != nil && err == nil && len(tree.Proofs) == len(blocks)
  ensures [P20] root: str(tree.Root) != ""
  ensures [P20] proof: forall(i, int, implies(0 <= i && i < len(blocks), tree.Proofs[i] != nil))
  ensures [P20] single: implies(len(blocks) == 1, forall(i, int, implies(0 <= i && i < len(blocks), len(tree.Proofs[i].Siblings) == 0)))
  ensures [P20] leaf: implies(len(blocks) == 1, str(tree.Root) == sha256(str(unbox(*crypto.Certblock, blocks[0]).Content.RawSubject)))
  ensures [P20] proofs: implies(len(blocks) >= 2, forall(i, int, implies(0 <= i && i < len(blocks), uf("mt.ok", "Bool", str(unbox(*crypto.Certblock, blocks[i]).Content.RawSubject), tree.Proofs[i], str(tree.Root)))))
  modifies nothing

func Logger.BuildMerkleTreeFromCerts(certs, ctx, periodNum) (g, root, pois)
  requires ctx: ctx.Logger_private_config != nil && ctx.Logger_crypto_config != nil
  nopanic [P20,P22]
  ensures [P20] count: len(pois) == len(certs)
  ensures [P20] which: forall(i, int, implies(0 <= i && i < len(certs), pois[i].SubjectKeyId == certs[i].SubjectKeyId && pois[i].Issuer == certs[i].Issuer.CommonName && pois[i].LoggerID == ctx.Logger_private_config.Signer))
  ensures [P20] proof: forall(i, int, implies(0 <= i && i < len(certs), pois[i].Poi != nil))
  ensures [P20] nonempty: str(root) != ""
  ensures [P20] single: implies(len(certs) == 1, len(pois[0].Poi.Siblings) == 0 && str(root) == sha256(str(certs[0].RawSubject)))
  ensures [P20] proved: implies(len(certs) >= 2, forall(i, int, implies(0 <= i && i < len(certs), uf("mt.ok", "Bool", str(certs[i].RawSubject), pois[i].Poi, str(root)))))
  ensures [P20] kind: g.Type == definition.STH_INIT && g.Application == "CTng" && g.Crypto_Scheme == "RSA" && g.Period == pure("util.PeriodString", periodNum)
  ensures [P20] signer: g.Signer == ctx.Logger_private_config.Signer && g.Payload[0] == ctx.Logger_private_config.Signer
  ensures [P20] size: sthof(g).TreeSize == len(certs)
  ensures [P20] root: unhex(sthof(g).RootHash) == str(root)
  ensures [P20] valid: implies(logreg(ctx) && lcansign(ctx, payload(g)), pure("(definition.Gossip_object).Verify", g, ctx.Logger_crypto_config) == nil)
  modifies nothing

define knownca(c, name) = exists(i, int, 0 <= i && i < len(c.Logger_private_config.CAlist) && c.Logger_private_config.CAlist[i] == name)
define cavalid(c, name, tbs, sg) = knownca(c, name) && uf("rsa.ok", "Bool", c.Logger_crypto_config.SignPublicMap[name], 5, sha256(tbs), sg)

func Logger.inList(item, list) (r)
  optional
  nopanic [P20,P22]
  ensures [P20] is: r == exists(i, int, 0 <= i && i < len(list) && list[i] == item)
  modifies nothing

func Logger.Verifyprecert(precert, ctx) (r)
  requires ctx: ctx.Logger_private_config != nil && ctx.Logger_crypto_config != nil
  nopanic [P22]
  ensures [P20] exact: r == cavalid(ctx, precert.Issuer.CommonName, str(precert.RawTBSCertificate), str(precert.Signature))
  modifies nothing

define lpool(c) = c.CurrentPrecertPool
define prebody(r) = uf("readall", "Str", r.Body)

func Logger.receive_pre_cert(c, w, r)
  requires ctx: lctx(c) && w != nil && r != nil && r.Body != nil
  requires pool: poolok(lpool(c))
  locks [P22]
  nopanic [P22]
  ensures pool: poolok(lpool(c))
  ensures [P20] kept: len(lpool(c).certs) >= old(len(lpool(c).certs)) && forall(i, int, implies(0 <= i && i < old(len(lpool(c).certs)), lpool(c).certs[i] == old(lpool(c).certs[i])))
  ensures [P20] only: implies(len(lpool(c).certs) > old(len(lpool(c).certs)), cabody(c, prebody(r)))
  ensures [P20] logged: implies(uf("err.readall", "Any", prebody(r)) == nil && cabody(c, prebody(r)), haskey(lpool(c), uf("x509.SubjectKeyId", "Str", prebody(r))))
  modifies all

define cabody(c, s) = uf("err.x509", "Any", s) == nil && cavalid(c, uf("x509.Issuer.CommonName", "Str", s), uf("x509.RawTBSCertificate", "Str", s), uf("x509.Signature", "Str", s))

func Logger.Send_STH_to_CA(c, sth, ca)
  nopanic [P22]
  requires ctx: c != nil && c.Client != nil
  ensures [P20] sent: sent(cat("http://", ca, "/CA/receive-sth"), enc(sth))
  modifies net

func Logger.Send_POI_to_CA(c, poi, ca)
  nopanic [P22]
  requires ctx: c != nil && c.Client != nil
  ensures [P20] sent: sent(cat("http://", ca, "/CA/receive-poi"), enc(poi))
  modifies net

func Logger.requestSTH(c, w, r)
  requires ctx: lctx(c) && w != nil && r != nil
  requires type: c.Logger_Type == 0 || c.MisbehaviorInterval > 0
  locks [P22]
  nopanic [P22]
  ensures [P20] served: implies(c.Logger_Type == 0, replied(enc(c.STH_storage[now_period])))
  ensures [P22] done: true
  modifies reply, field(c.Request_Count)

func Logger.InitializeLoggerContext(public_config_path, private_config_file_path, crypto_config_path) (r)
  ensures [P20,P22] ready: implies(r.Logger_public_config != nil && r.Logger_private_config != nil, lctx(r))
  ensures [P20] nothing: r.Logger_Type == 0 && forall(k, string, !has(r.STH_storage, k)) && poolok(r.CurrentPrecertPool) && len(lpool(r).certs) == 0
  modifies all

func Logger.SaveToStorage(ctx)
  requires pool: poolok(ctx.CurrentPrecertPool)
  nopanic [P22]
  ensures [P22] done: true
  modifies fs

func Logger.Send_POIs_to_CAs(c, POIs, roothash)
  requires ctx: lctx(c)
  requires pool: poolok(lpool(c))
  nopanic [P22]
  ensures [P20] sent: forall(i, int, implies(0 <= i && i < len(POIs) && provable(c, POIs[i], str(roothash)), sent(cat("http://", POIs[i].Issuer, "/CA/receive-poi"), enc(POIs[i]))))
  modifies net, fs

define poicert(c, p) = lpool(c).certs[lpool(c).bySubjectKeyId[str(p.SubjectKeyId)][0]]
define provable(c, p, root) = len(p.SubjectKeyId) != 0 && has(lpool(c).bySubjectKeyId, str(p.SubjectKeyId)) && len(lpool(c).bySubjectKeyId[str(p.SubjectKeyId)]) > 0 && p.Poi != nil && root != "" && (uf("mt.ok", "Bool", str(poicert(c, p).RawSubject), p.Poi, root) || len(p.Poi.Siblings) == 0 && root == sha256(str(poicert(c, p).RawSubject)))

track Logger.PeriodicTask
track Logger.Send_POIs_to_CAs
define sentpoi(i) = callarg("Logger.Send_POIs_to_CAs", 1)[i]

define oldcert(ctx, i) = old(*lpool(ctx).certs[i])
define findable(ctx, i) = old(len(lpool(ctx).certs[i].SubjectKeyId) != 0 && has(lpool(ctx).bySubjectKeyId, str(lpool(ctx).certs[i].SubjectKeyId)) && len(lpool(ctx).bySubjectKeyId[str(lpool(ctx).certs[i].SubjectKeyId)]) > 0 && lpool(ctx).bySubjectKeyId[str(lpool(ctx).certs[i].SubjectKeyId)][0] == i)

define logsth(c, g, p) = g.Type == definition.STH_INIT && g.Period == p && g.Signer == c.Logger_private_config.Signer && g.Payload[0] == c.Logger_private_config.Signer

func Logger.PeriodicTask(ctx)
  locks [P22]
  requires ctx: lctx(ctx)
  requires pool: poolok(lpool(ctx))
  laterassume ctx: lctx(ctx)
  laterassume pool: poolok(lpool(ctx))
  ensures [P20] armed: called("later", 2)
  later [P20] stored: implies(!called("Logger.PeriodicTask"), has(ctx.STH_storage, nextperiod()))
  later [P20] storedsth: implies(!called("Logger.PeriodicTask"), logsth(ctx, ctx.STH_storage[nextperiod()], nextperiod()))
  later [P20] size: implies(!called("Logger.PeriodicTask"), sthof(ctx.STH_storage[nextperiod()]).TreeSize == old(len(lpool(ctx).certs)))
  later [P20] kept: implies(!called("Logger.PeriodicTask"), forall(k, string, implies(k != nextperiod(), has(ctx.STH_storage, k) == old(has(ctx.STH_storage, k)) && ctx.STH_storage[k] == old(ctx.STH_storage[k]))))
  candidate [P20] told: forall(i, int, implies(0 <= i && done(i), sent(cat("http://", ctx.Logger_public_config.All_CA_URLs[i], "/CA/receive-sth"), enc(ctx.STH_storage[nextperiod()]))))
  later [P20] told: implies(!called("Logger.PeriodicTask"), forall(i, int, implies(0 <= i && i < len(ctx.Logger_public_config.All_CA_URLs), sent(cat("http://", ctx.Logger_public_config.All_CA_URLs[i], "/CA/receive-sth"), enc(ctx.STH_storage[nextperiod()])))))
  later [P20] told2: implies(!called("Logger.PeriodicTask"), forall(i, int, implies(0 <= i && i < old(len(lpool(ctx).certs)), str(sentpoi(i).SubjectKeyId) == old(str(lpool(ctx).certs[i].SubjectKeyId)) && sentpoi(i).Issuer == old(lpool(ctx).certs[i].Issuer.CommonName) && sentpoi(i).LoggerID == ctx.Logger_private_config.Signer)))
  later [P20] proofs: implies(old(len(lpool(ctx).certs)) >= 2, implies(!called("Logger.PeriodicTask"), forall(i, int, implies(0 <= i && i < old(len(lpool(ctx).certs)), uf("mt.ok", "Bool", old(str(lpool(ctx).certs[i].RawSubject)), sentpoi(i).Poi, unhex(sthof(ctx.STH_storage[nextperiod()]).RootHash))))))
  later [P20] delivered: implies(!called("Logger.PeriodicTask"), forall(i, int, implies(0 <= i && i < old(len(lpool(ctx).certs)), implies(findable(ctx, i), sent(cat("http://", sentpoi(i).Issuer, "/CA/receive-poi"), enc(sentpoi(i)))))))
  later [P20] fresh: implies(!called("Logger.PeriodicTask"), lpool(ctx) != old(lpool(ctx)) && poolok(lpool(ctx)) && len(lpool(ctx).certs) == 0)
  modifies all
