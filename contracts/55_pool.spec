# the certificate pool: every index names a certificate filed under that key
define poolmaps(s) = s != nil && s.bySubjectKeyId != nil && s.byName != nil && s.bySubjectKeyId != s.byName
define poolcerts(s) = forall(i, int, implies(0 <= i && i < len(s.certs), s.certs[i] != nil && allocated(s.certs[i])))
define poolids(s) = forall(k, string, forall(i, int, implies(has(s.bySubjectKeyId, k) && 0 <= i && i < len(s.bySubjectKeyId[k]), allocated(s.bySubjectKeyId[k]) && 0 <= s.bySubjectKeyId[k][i] && s.bySubjectKeyId[k][i] < len(s.certs))))
define poolnames(s) = forall(k, string, forall(i, int, implies(has(s.byName, k) && 0 <= i && i < len(s.byName[k]), allocated(s.byName[k]) && 0 <= s.byName[k][i] && s.byName[k][i] < len(s.certs))))
define poolok(s) = poolmaps(s) && poolcerts(s) && poolids(s) && poolnames(s)
define haskey(s, k) = exists(i, int, 0 <= i && i < len(s.certs) && str(s.certs[i].SubjectKeyId) == k)

func crypto.NewCertPool() (r)
  ensures ok: poolok(r) && len(r.certs) == 0
  ensures new: fresh(r)
  modifies nothing

func (*crypto.CertPool).GetCertBySubjectKeyID(s, subjectKeyId) (r)
  optional
  requires ok: poolok(s)
  nopanic [P20,P21,P22]
  ensures [P20,P21] in: implies(r != nil, exists(i, int, 0 <= i && i < len(s.certs) && s.certs[i] == r))
  ensures [P20,P21] found: (r != nil) == (has(s.bySubjectKeyId, subjectKeyId) && len(s.bySubjectKeyId[subjectKeyId]) > 0)
  ensures [P20,P21] first: implies(r != nil, r == s.certs[s.bySubjectKeyId[subjectKeyId][0]])
  modifies nothing

func (*crypto.CertPool).AddCert(s, cert)
  requires ok: poolok(s)
  requires cert: cert != nil
  nopanic [P20,P22]
  ensures okmaps: poolmaps(s)
  ensures okcerts: poolcerts(s)
  ensures okids: poolids(s)
  ensures oknames: poolnames(s)
  ensures [P20] added: haskey(s, str(cert.SubjectKeyId))
  ensures [P20] kept: len(s.certs) >= old(len(s.certs)) && forall(i, int, implies(0 <= i && i < old(len(s.certs)), s.certs[i] == old(s.certs[i])))
  ensures [P20] only: forall(i, int, implies(old(len(s.certs)) <= i && i < len(s.certs), s.certs[i] == cert))
  modifies field(s.certs), map(s.bySubjectKeyId), map(s.byName)

func (*crypto.CertPool).GetCerts(c) (r)
  requires ok: poolok(c)
  nopanic [P20,P22]
  ensures [P20] all: len(r) == len(c.certs) && forall(i, int, implies(0 <= i && i < len(r), r[i] == *c.certs[i]))
  modifies nothing

func (*crypto.CertPool).UpdateCertBySubjectKeyID(s, subjectKeyId, cert)
  requires ok: poolok(s) && cert != nil
  nopanic [P21,P22]
  ensures ok: poolok(s)
  ensures [P21] one: forall(i, int, implies(0 <= i && i < len(s.certs), s.certs[i] == old(s.certs[i]) || s.certs[i] == cert))
  ensures [P21] rest: forall(i, int, implies(0 <= i && i < len(s.certs) && !(has(s.bySubjectKeyId, subjectKeyId) && len(s.bySubjectKeyId[subjectKeyId]) > 0 && i == s.bySubjectKeyId[subjectKeyId][0]), s.certs[i] == old(s.certs[i])))
  modifies elems(s.certs)
