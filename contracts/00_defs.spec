# vocabulary shared by all contracts
define jsub(d, k) = uf("json.sub", "Str", d, k)
define jstr(d, k) = uf("json.str", "Str", jsub(d, k))
define jlen(d) = uf("json.len", "Int", d)
define jat(d, i) = uf("json.str", "Str", uf("json.at", "Str", d, i))
define jsafe(s) = uf("jsonsafe", "Bool", s)
define unhex(s) = uf("unhex", "Str", s)
define unhexok(s) = uf("err.unhex", "Any", s) == nil
define blsok(s) = uf("err.blsunhex", "Any", s) == nil
define sha256(m) = uf("hash", "Str", 5, m)
# signature over message m by the entity registered as id
define rsavalid(c, id, m, sg) = has(c.SignPublicMap, id) && uf("rsa.ok", "Bool", c.SignPublicMap[id], 5, sha256(m), sg)
# wire form of an RSA signature
define rsa_id(s) = jstr(s, "id")
define rsa_sig(s) = unhex(jstr(s, "sig"))
define rsa_wf(s) = decok(map[string]string, s) && unhexok(jstr(s, "sig"))
define payload(g) = cat(g.Payload[0], g.Payload[1], g.Payload[2])
# wire form of a BLS fragment
define frag_id(s) = jstr(s, "id")
define unbls(s) = uf("bls.unhex", bls.Sign, s)
define frag_sig(s) = unbls(jstr(s, "sign"))
define frag_wf(s) = decok(map[string]string, s) && blsok(jstr(s, "sign"))
define fragvalid(c, id, m, sg) = has(c.ThresholdPublicMap, id) && uf("bls.ok", "Bool", sg, c.ThresholdPublicMap[id], m)
# wire form of a BLS aggregate
define agg_n(s) = jlen(jsub(s, "ids"))
define agg_id(s, i) = jat(jsub(s, "ids"), i)
define agg_sig(s) = unbls(jstr(s, "sign"))
define agg_wf(s) = decok(struct{Sign string; IDs []string}, s) && blsok(jstr(s, "sign"))
# what makes an object of each class valid
define initvalid(c, g) = g.Signature[0] != "" && g.Payload[0] != "" && rsa_wf(g.Signature[0]) && rsa_id(g.Signature[0]) == g.Signer && implies(g.Type != definition.ACC_INIT, g.Payload[0] == g.Signer) && c.SignScheme == "rsa" && rsavalid(c, g.Signer, payload(g), rsa_sig(g.Signature[0]))
define conside(c, g, s, m) = rsa_wf(s) && rsa_id(s) == g.Payload[0] && rsavalid(c, g.Payload[0], m, rsa_sig(s))
define convalid(c, g) = conside(c, g, g.Signature[0], g.Payload[1]) && conside(c, g, g.Signature[1], g.Payload[2]) && g.Payload[1] != g.Payload[2] && c.SignScheme == "rsa"
define fragobjvalid(c, g) = g.Signature[0] != "" && g.Payload[0] != "" && frag_wf(g.Signature[0]) && frag_id(g.Signature[0]) == g.Signer && c.ThresholdScheme == "bls" && fragvalid(c, g.Signer, payload(g), frag_sig(g.Signature[0]))
define distinctids(s) = forall(i, int, forall(j, int, implies(0 <= i && i < j && j < agg_n(s), agg_id(s, i) != agg_id(s, j))))
define fullsound(c, g) = g.Payload[0] != "" && agg_n(g.Signature[0]) >= c.Threshold && distinctids(g.Signature[0]) && forall(k, int, implies(0 <= k && k < agg_n(g.Signature[0]), has(c.ThresholdPublicMap, agg_id(g.Signature[0], k)))) && uf("bls.aggok", "Bool", agg_sig(g.Signature[0]), seqof(q, agg_n(g.Signature[0]), bls.PublicKey, c.ThresholdPublicMap[agg_id(g.Signature[0], q)]), payload(g))
define isinit(t) = t == definition.STH_INIT || t == definition.REV_INIT || t == definition.ACC_INIT
define isfrag(t) = t == definition.STH_FRAG || t == definition.REV_FRAG || t == definition.ACC_FRAG
define isfull(t) = t == definition.STH_FULL || t == definition.REV_FULL || t == definition.ACC_FULL
define isknown(t) = isinit(t) || isfrag(t) || isfull(t) || t == definition.CON_INIT
