func crypto.RSASigFromString(s) (sig, err)
  aux [P01,P02,P03,P04,P05,P08,P13,P15,P18,P19,P20,P22]
  nopanic [P05,P22]
  ensures [P01,P02,P06,P08,P13,P15,P18,P19,P20] wf: implies(err == nil, rsa_wf(s))
  ensures [P05,P06,P08,P13,P15,P18,P19,P20] accepts: implies(rsa_wf(s), err == nil)
  ensures [P01,P02,P05,P06,P08,P13,P15,P18,P19,P20] id: implies(err == nil, sig.ID == rsa_id(s))
  ensures [P01,P02,P05,P06,P08,P13,P15,P18,P19,P20] sig: implies(err == nil, str(sig.Sig) == rsa_sig(s))
  modifies nothing

func crypto.SigFragmentFromString(s) (sig, err)
  aux [P01,P02,P03,P04,P05,P22]
  nopanic [P05,P22]
  ensures nonnil: implies(err == nil, sig.Sign != nil)
  ensures [P03,P06] wf: implies(err == nil, frag_wf(s))
  ensures [P05,P06] accepts: implies(frag_wf(s), err == nil)
  ensures [P03,P05,P06] id: implies(err == nil, sig.ID == frag_id(s))
  ensures [P03,P05,P06,P10] sig: implies(err == nil, sig.Sign != nil && *sig.Sign == frag_sig(s))
  modifies nothing

func crypto.ThresholdSigFromString(s) (sig, err)
  aux [P01,P02,P03,P04,P05,P22]
  nopanic [P05,P22]
  ensures nonnil: implies(err == nil, sig.Sign != nil)
  ensures [P04,P06] wf: implies(err == nil, agg_wf(s))
  ensures [P05,P06] accepts: implies(agg_wf(s), err == nil)
  ensures [P04,P05,P06] ids: implies(err == nil, len(sig.IDs) == agg_n(s) && forall(k, int, implies(0 <= k && k < agg_n(s), sig.IDs[k] == agg_id(s, k))))
  ensures [P04,P05,P06] sig: implies(err == nil, sig.Sign != nil && *sig.Sign == agg_sig(s))
  modifies nothing

func (crypto.RSASig).String(s) (r)
  nopanic [P20,P22]
  ensures [P06,P16,P19,P20] nonempty: r != ""
  ensures [P06,P16,P19,P20] decodes: implies(jsafe(s.ID), rsa_wf(r))
  ensures [P06,P16,P19,P20] signer: implies(jsafe(s.ID), rsa_id(r) == s.ID)
  ensures [P06,P16,P19,P20] signature: rsa_sig(r) == str(s.Sig)
  modifies nothing

func (crypto.SigFragment).String(s) (r)
  requires [P06] sig: s.Sign != nil
  ensures [P06] decodes: implies(jsafe(s.ID), frag_wf(r))
  ensures [P06] signer: implies(jsafe(s.ID), frag_id(r) == s.ID)
  ensures [P06] signature: frag_sig(r) == *s.Sign
  modifies nothing

func (crypto.ThresholdSig).String(t) (r, err)
  requires [P06] sig: t.Sign != nil
  ensures [P06] decodes: implies(err == nil, agg_wf(r))
  ensures [P06] count: implies(err == nil, agg_n(r) == len(t.IDs))
  ensures [P06] signers: implies(err == nil, forall(k, int, implies(0 <= k && k < len(t.IDs), agg_id(r, k) == t.IDs[k])))
  ensures [P06] signature: implies(err == nil, agg_sig(r) == *t.Sign)
  modifies nothing

func (*crypto.CryptoConfig).Verify(c, msg, sig) (err)
  aux [P01,P02,P03,P04,P05,P19,P20,P22]
  requires cfg: c != nil
  nopanic [P05,P22]
  ensures [P01,P02,P08] sound: implies(err == nil, c.SignScheme == "rsa" && rsavalid(c, sig.ID, str(msg), str(sig.Sig)))
  ensures [P05,P08,P19,P20] complete: implies(c.SignScheme == "rsa" && rsavalid(c, sig.ID, str(msg), str(sig.Sig)), err == nil)
  modifies nothing

func (*crypto.CryptoConfig).FragmentVerify(c, msg, sig) (err)
  aux [P01,P02,P03,P04,P05,P22]
  requires cfg: c != nil
  requires [P03,P05,P22] sig: sig.Sign != nil
  nopanic [P05,P22]
  ensures [P03] sound: implies(err == nil, c.ThresholdScheme == "bls" && fragvalid(c, sig.ID, msg, *sig.Sign))
  ensures [P05] complete: implies(c.ThresholdScheme == "bls" && fragvalid(c, sig.ID, msg, *sig.Sign), err == nil)
  modifies nothing

func (*crypto.CryptoConfig).ThresholdVerify(c, msg, sig) (err)
  aux [P01,P02,P03,P04,P05,P22]
  requires cfg: c != nil
  requires [P04,P05,P22] sig: sig.Sign != nil
  nopanic [P05,P22]
  ensures [P04] scheme: implies(err == nil, c.ThresholdScheme == "bls")
  ensures [P04] count: implies(err == nil, len(sig.IDs) >= c.Threshold)
  ensures [P04] distinct: implies(err == nil, forall(i, int, forall(j, int, implies(0 <= i && i < j && j < len(sig.IDs), sig.IDs[i] != sig.IDs[j]))))
  ensures [P04] members: implies(err == nil, forall(k, int, implies(0 <= k && k < len(sig.IDs), has(c.ThresholdPublicMap, sig.IDs[k]))))
  ensures [P04] aggregate: implies(err == nil, uf("bls.aggok", "Bool", *sig.Sign, seqof(q, len(sig.IDs), bls.PublicKey, c.ThresholdPublicMap[sig.IDs[q]]), msg))
  ensures [P05] complete: implies(c.ThresholdScheme == "bls" && len(sig.IDs) >= c.Threshold && forall(i, int, forall(j, int, implies(0 <= i && i < j && j < len(sig.IDs), sig.IDs[i] != sig.IDs[j]))) && uf("bls.aggok", "Bool", *sig.Sign, seqof(q, len(sig.IDs), bls.PublicKey, c.ThresholdPublicMap[sig.IDs[q]]), msg), err == nil)
  modifies nothing

func (*crypto.CryptoConfig).Sign(c, msg) (sig, err)
  requires cfg: c != nil
  nopanic [P06]
  ensures [P06] scheme: implies(err == nil, c.SignScheme == "rsa")
  ensures [P16] works: implies(c.SignScheme == "rsa" && uf("err.rsasign", "Any", c.SignSecretKey, 5, sha256(str(msg))) == nil, err == nil)
  ensures [P06,P16] signer: implies(err == nil, sig.ID == c.SelfID)
  ensures [P06,P16] signature: implies(err == nil, uf("rsa.ok", "Bool", c.SignSecretKey.PublicKey, 5, sha256(str(msg)), str(sig.Sig)))
  modifies nothing

func (*crypto.CryptoConfig).ThresholdSign(c, msg) (sig, err)
  requires cfg: c != nil
  nopanic [P06]
  ensures [P06] ok: (err == nil) == (c.ThresholdScheme == "bls")
  ensures [P06] signer: implies(err == nil, sig.ID == c.SelfID)
  ensures [P06] signature: implies(err == nil, sig.Sign != nil && uf("bls.ok", "Bool", *sig.Sign, uf("bls.pub", bls.PublicKey, c.ThresholdSecretKey), msg))
  modifies nothing

func (*crypto.CryptoConfig).ThresholdAggregate(c, sigs) (sig, err)
  requires cfg: c != nil
  requires [P06] sigs: forall(k, int, implies(0 <= k && k < len(sigs), sigs[k].Sign != nil))
  nopanic [P06]
  ensures [P06] enough: implies(err == nil, len(sigs) >= c.Threshold && c.ThresholdScheme == "bls")
  ensures [P06] complete: implies(c.ThresholdScheme == "bls" && len(sigs) >= c.Threshold, err == nil)
  ensures [P06] sign: implies(err == nil, sig.Sign != nil && *sig.Sign == uf("bls.agg", bls.Sign, seqof(q, len(sigs), bls.Sign, old(*sigs[q].Sign))))
  ensures [P06] count: implies(err == nil, len(sig.IDs) == len(sigs))
  ensures [P06] ids: implies(err == nil, forall(k, int, implies(0 <= k && k < len(sigs), exists(j, int, 0 <= j && j < len(sigs) && sig.IDs[j] == sigs[k].ID))))
  ensures [P06] noextra: implies(err == nil, forall(k, int, implies(0 <= k && k < len(sigs), exists(j, int, 0 <= j && j < len(sigs) && sig.IDs[k] == sigs[j].ID))))
  modifies nothing
