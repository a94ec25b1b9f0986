func definition.Verify_RSAPayload(g, c) (err)
  aux
  requires cfg: c != nil
  nopanic [P05,P22]
  ensures [P01,P08] sound: implies(err == nil, initvalid(c, g))
  ensures [P05,P19,P20] complete: implies(initvalid(c, g), err == nil)
  modifies nothing

func definition.Verify_CON(g, c) (err)
  aux
  requires cfg: c != nil
  nopanic [P05,P22]
  ensures [P02] sound: implies(err == nil, convalid(c, g))
  ensures [P05,P08] complete: implies(convalid(c, g), err == nil)
  modifies nothing

func definition.Verify_PayloadFrag(g, c) (err)
  aux
  requires cfg: c != nil
  nopanic [P05,P22]
  ensures [P03] sound: implies(err == nil, fragobjvalid(c, g))
  ensures [P05] complete: implies(fragobjvalid(c, g), err == nil)
  modifies nothing

func definition.Verify_PayloadThreshold(g, c) (err)
  aux
  requires cfg: c != nil
  nopanic [P05,P22]
  ensures [P04] sound: implies(err == nil, fullsound(c, g))
  modifies nothing

func (definition.Gossip_object).Verify(g, c) (err)
  pure
  requires cfg: c != nil
  nopanic [P05,P22]
  ensures [P01,P08] init: implies(err == nil && isinit(g.Type), initvalid(c, g))
  ensures [P02] conflict: implies(err == nil && g.Type == definition.CON_INIT, convalid(c, g))
  ensures [P03] fragment: implies(err == nil && isfrag(g.Type), fragobjvalid(c, g))
  ensures [P04] full: implies(err == nil && isfull(g.Type), fullsound(c, g))
  ensures [P05] unknown: implies(!isknown(g.Type), err != nil)
  ensures [P05,P19,P20] initcomplete: implies(isinit(g.Type) && initvalid(c, g), err == nil)
  ensures [P05,P08] concomplete: implies(g.Type == definition.CON_INIT && convalid(c, g), err == nil)
  ensures [P05] fragcomplete: implies(isfrag(g.Type) && fragobjvalid(c, g), err == nil)
  modifies nothing
