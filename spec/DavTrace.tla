------------------------------ MODULE DavTrace ------------------------------
(* Recorded WebDAV requests: response, and the whole tree before and after. *)
EXTENDS Dav, Date, HttpResp, TraceBase
VARIABLES fs, meta, sh, mount, perm, tags
tvars == <<fs, meta, sh, mount, perm, tags, tid, l>>
Node(x) == CASE x.t = "file" -> [t |-> "file", d |-> x.d, x |-> x.x] [] x.t = "link" -> [t |-> "link", to |-> x.d] [] OTHER -> [t |-> x.t]
Snap(tr) == [p \in {tr[i].p : i \in 1..Len(tr)} |-> Node(tr[CHOOSE i \in 1..Len(tr) : tr[i].p = p])]
Meta(tr) == [p \in {tr[i].p : i \in 1..Len(tr)} |-> LET x == tr[CHOOSE i \in 1..Len(tr) : tr[i].p = p] IN [sz |-> x.sz, m |-> x.m]]
Match(f, g) == DOMAIN f = DOMAIN g /\ \A p \in DOMAIN f : f[p].t = g[p].t /\ CASE f[p].t = "file" -> f[p].d = g[p].d /\ (f[p].x = 2 \/ f[p].x = g[p].x) [] f[p].t = "link" -> f[p].to = g[p].to [] OTHER -> TRUE
TInit == TBInit /\ fs = <<>> /\ meta = <<>> /\ sh = <<>> /\ mount = <<>> /\ perm = FALSE /\ tags = <<>>
Here(fp) == StartsWith(fp, <<47>> \o mount)
Local(fp) == SubSeq(fp, 2 + Len(mount), Len(fp))
\* path of a destination: that of the URL, or the path itself
UrlPath(v) == IF v # <<>> /\ v[1] = 47 THEN PctDec(v)
              ELSE LET i == FindFrom(v, 1, B("://")) j == IF i = 0 THEN 0 ELSE IndexFrom(v, i + 3, 47) IN IF j = 0 THEN <<>> ELSE PctDec(SubSeq(v, j, Len(v)))
Q == LET dp == IF Ev.hasdst THEN UrlPath(Ev.dst) ELSE <<>> p == Local(PctDec(Ev.t)) IN
  [m |-> Ev.m, p |-> p, d |-> Ev.pd, hasdst |-> Ev.hasdst /\ Here(dp), dst |-> IF Ev.hasdst /\ Here(dp) THEN Local(dp) ELSE <<>>, keep |-> Ev.keep, x |-> Ev.x,
   body |-> Ev.kind, depth |-> Ev.depth, denied |-> perm /\ (Has(p, B("secret")) \/ (Ev.m = "MOVE" /\ Has(dp, B("secret")))), fault |-> Ev.fault]
\* ---- properties
Known == {"resourcetype", "getcontentlength", "getlastmodified", "creationdate", "getetag", "getcontenttype", "displayname", "executable"}
Vals(ps, n, code) == LET s == SelectSeq(ps, LAMBDA x : x.n = n /\ x.code = code) IN s
One(ps, n, v) == LET s == Vals(ps, n, 200) IN Len(s) = 1 /\ s[1].v = v
Props(ps, want, p) ==
  /\ \A i \in 1..Len(ps) : ps[i].n \in want \/ ps[i].n \notin Known
  /\ "resourcetype" \in want => LET s == Vals(ps, "resourcetype", 200) IN Len(s) = 1 /\ s[1].coll = (fs[p].t = "dir")
  /\ fs[p].t = "file" =>
     /\ "getcontentlength" \in want => One(ps, "getcontentlength", meta[p].sz)
     /\ "executable" \in want => One(ps, "executable", IF fs[p].x = 1 THEN B("true") ELSE B("false"))
     /\ "getlastmodified" \in want => One(ps, "getlastmodified", HttpDate(meta[p].m))
     /\ "creationdate" \in want => One(ps, "creationdate", IsoDate(meta[p].m))
     /\ "getetag" \in want => Len(Vals(ps, "getetag", 200)) = 1
  /\ fs[p].t = "dir" => Vals(ps, "getcontentlength", 200) = <<>>
NamesOf(s) == SelectSeq(Split(s, 47), LAMBDA c : c \notin {<<>>, Dot})
HrefIs(v, ns) == PctOk(v) /\ NamesOf(PctDec(v)) = ns
Multi(q) ==
  LET r == Target(fs, sh, q.p).p self == NamesOf(PctDec(Ev.t)) m == Ev.multi
      kids == IF q.depth = 1 /\ fs[r].t = "dir" THEN {c \in Children(fs, r) : Name(c)[1] # 46} ELSE {}
      firm == {c \in kids : fs[c].t # "link"}
      want == IF Ev.kind = "props" THEN {Ev.want[i] : i \in 1..Len(Ev.want)} ELSE Known
      ok(i, p) == Ev.kind = "bad" \/ Props(m[i].ps, want, p)
      at(ns) == {i \in 1..Len(m) : HrefIs(m[i].href, ns)} IN
  /\ Ev.xml
  /\ Plain(fs, sh, q.p) =>
     /\ Cardinality(at(self)) = 1 /\ \A i \in at(self) : ok(i, r)
     /\ \A c \in firm : LET a == at(Append(self, Name(c))) IN Cardinality(a) = 1 /\ \A i \in a : ok(i, c)
     /\ Len(m) \in (1 + Cardinality(firm))..(1 + Cardinality(kids))
     /\ \A i \in 1..Len(m) : HrefIs(m[i].href, self) \/ \E c \in kids : HrefIs(m[i].href, Append(self, Name(c)))
  /\ Len(m) <= 1 + Cardinality(kids)
Tag(p, v) == [p |-> p, st |-> <<meta[p].sz, meta[p].m>>, tag |-> v]
TagsAgree(t) == \A i \in 1..Len(tags) : tags[i].p = t.p => ((tags[i].tag = t.tag) = (tags[i].st = t.st))
SelfTag(q) == LET r == Target(fs, sh, q.p).p s == SelectSeq(Ev.multi, LAMBDA x : HrefIs(x.href, NamesOf(PctDec(Ev.t)))) IN
  IF fs[r].t = "file" /\ s # <<>> /\ Vals(s[1].ps, "getetag", 200) # <<>> THEN <<Tag(r, Vals(s[1].ps, "getetag", 200)[1].v)>> ELSE <<>>
Reply(q, hd, ok) ==
  IF ~ok THEN hd.code \in 400..599 /\ UNCHANGED tags
  ELSE CASE q.m \in {"GET", "HEAD"} ->
              LET r == Target(fs, sh, q.p).p et == RVals(hd.h, B("Etag")) IN
              /\ hd.code = 200 /\ RVals(hd.h, B("Content-Length")) = <<meta[r].sz>> /\ Ev.body = (IF q.m = "HEAD" THEN <<>> ELSE fs[r].d)
              /\ RVals(hd.h, B("Last-Modified")) \in {<<>>, <<HttpDate(meta[r].m)>>}
              /\ IF Len(et) = 1 THEN TagsAgree(Tag(r, et[1])) /\ tags' = Append(tags, Tag(r, et[1])) ELSE UNCHANGED tags
         [] q.m = "PROPFIND" -> hd.code = 207 /\ RVals(hd.h, B("Content-Length")) = <<DecBytes(Ev.blen)>> /\ Multi(q) /\ (\A i \in 1..Len(SelfTag(q)) : TagsAgree(SelfTag(q)[i])) /\ tags' = tags \o SelfTag(q)
         [] OTHER -> hd.code \in 200..299 /\ UNCHANGED tags
TDav ==
  LET q == Q hd == RespHead(Ev.head) now == Snap(Ev.tree) IN
  /\ hd.ok /\ Ev.left = 0
  /\ \E o \in Outcomes(fs, sh, q) : Match(o.fs, now) /\ o.ok = (hd.code < 300) /\ Reply(q, hd, o.ok)
  /\ fs' = now /\ meta' = Meta(Ev.tree) /\ UNCHANGED <<sh, mount, perm>>
TNext ==
  /\ \/ Is("share") /\ fs' = Snap(Ev.tree) /\ meta' = Meta(Ev.tree) /\ sh' = Res(Snap(Ev.tree), <<>>, Ev.p, 20).p /\ mount' = Ev.mount /\ perm' = Ev.perm /\ UNCHANGED tags
     \/ Is("dav") /\ DirAt(fs, sh) /\ TDav
     \/ Is("dav") /\ ~DirAt(fs, sh) /\ UNCHANGED <<fs, meta, sh, mount, perm, tags>>     \* the share itself was deleted
     \/ Is("end") /\ Ev.live = 0 /\ Ev.fds = 0 /\ UNCHANGED <<fs, meta, sh, mount, perm, tags>>
  /\ Advance
TraceSpec == TInit /\ [][TNext]_tvars
=============================================================================
