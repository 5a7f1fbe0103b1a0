----------------------------- MODULE FileTrace -----------------------------
(* Exported directories and files sent by the file shortcut.                *)
EXTENDS FileResp, TraceBase
VARIABLES fs, base, mime, tags, last
tvars == <<fs, base, mime, tags, last, tid, l>>
Root == <<>> :> [t |-> "dir"]
TInit == TBInit /\ fs = Root /\ base = [k |-> "", p |-> <<>>] /\ mime = MimeFew /\ tags = <<>> /\ last = <<>>
Put(p, n) == fs' = (p :> n) @@ fs
Upto0(s) == LET i == IndexFrom(s, 1, 0) IN IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1)
\* a path with an encoded NUL is as if it ended there
CutReq(r) == LET i == FindFrom(r, 1, B("%00")) IN IF i = 0 THEN r ELSE SubSeq(r, 1, i - 1) \o SubSeq(r, IndexFrom(r, i, SP), Len(r))
NotFound(hd, body) == hd.ok /\ hd.code = 404 /\ NoFile(body) /\ BodyLen(body) < 100
\* lines of a listing: "  ['name',..."
Entries(b) == {i \in 1..(Len(b) - 4) : b[i] = 32 /\ b[i + 1] = 32 /\ b[i + 2] = 91 /\ b[i + 3] = 39}
EntryName(b, i) == SubSeq(b, i + 4, IndexFrom(b, i + 4, 39) - 1)
Listing(q, hd, body, p) ==
  /\ hd.ok /\ hd.code = 200
  /\ q.m # "HEAD" =>
     LET b == Literal(body)
         vis == {c \in Children(fs, p) : Name(c)[1] # 46}
         dst(c) == IF fs[c].t = "link" THEN Res(fs, Parent(c), <<Name(c)>>, 20) ELSE [ok |-> TRUE, p |-> c]
         firm == {c \in vis : dst(c).ok}
         want(c) == IF fs[dst(c).p].t = "dir" THEN Name(c) \o <<47>> ELSE Name(c)
         got == {EntryName(b, i) : i \in Entries(b)} IN
     /\ NoFile(body)
     /\ {want(c) : c \in firm} \subseteq got
     /\ got \subseteq {want(c) : c \in firm} \union UNION {{Name(c), Name(c) \o <<47>>} : c \in vis \ firm}
     /\ Cardinality(Entries(b)) \in Cardinality(firm)..Cardinality(vis)
\* tag of the whole file in each of its states
TagsOk(q, hd, p, nd) ==
  Values(q.h, B("Range")) = <<>> /\ Etag(hd) # <<>> =>
    \A i \in 1..Len(tags) : tags[i].p = p => ((tags[i].tag = Etag(hd)) = (tags[i].st = <<nd.size, nd.mtime>>))
NewTags(q, hd, p, nd) == IF Values(q.h, B("Range")) = <<>> /\ Etag(hd) # <<>> THEN Append(tags, [p |-> p, tag |-> Etag(hd), st |-> <<nd.size, nd.mtime>>]) ELSE tags
Served(q, hd, body, closed) ==
  LET r == IF base.k = "dir" THEN Resolve(fs, base.p, Upto0(Tail(q.fp))) ELSE Res(fs, <<>>, base.p, 20)
      inside == base.k # "dir" \/ Under(base.p, r.p) IN
  IF ~r.ok \/ ~inside \/ fs[r.p].t = "fifo" \/ (fs[r.p].t = "dir" /\ base.k # "dir") THEN NotFound(hd, body) /\ UNCHANGED tags
  ELSE IF fs[r.p].t = "dir" THEN Listing(q, hd, body, r.p) /\ UNCHANGED tags
  ELSE LET nd == fs[r.p] IN
       /\ FileOk(q, hd, body, nd) /\ TagsOk(q, hd, r.p, nd)
       /\ (base.k = "sfile" /\ base.p = r.p) \/ Name(r.p) = (LET s == Split(Upto0(q.fp), 47) IN s[Len(s)]) => TypeOk(hd, mime, Name(r.p))
       /\ tags' = NewTags(q, hd, r.p, nd)
\* the transport failed: what was sent is the beginning of the answer, and the connection ends
RECURSIVE PrefixOf(_, _, _)
PrefixOf(b, id, a) == IF b = <<>> THEN TRUE ELSE LET r == Head(b) IN (IF r.f = -1 THEN r.b = FileBytes(id, a, Len(r.b)) ELSE r.f = id /\ r.o = a) /\ PrefixOf(Tail(b), id, a + RunLen(r))
Broken(q, hd, body, open) ==
  ~open /\ LET r == IF base.k = "dir" THEN Resolve(fs, base.p, Upto0(Tail(q.fp))) ELSE Res(fs, <<>>, base.p, 20) IN
  (hd.ok /\ hd.code \in {200, 206} /\ r.ok /\ fs[r.p].t = "file" /\ (base.k # "dir" \/ Under(base.p, r.p)))
     => LET g == RangeOf(q, fs[r.p].size) IN g.k = "odd" \/ PrefixOf(body, fs[r.p].id, IF hd.code = 206 THEN g.a ELSE 0)
TNext ==
  /\ \/ Is("mkdir") /\ Put(Ev.p, [t |-> "dir"]) /\ UNCHANGED <<base, mime, tags, last>>
     \/ Is("mkfile") /\ Put(Ev.p, [t |-> "file", id |-> Ev.id, size |-> Ev.size, mtime |-> Ev.mtime]) /\ UNCHANGED <<base, mime, tags, last>>
     \/ Is("mklink") /\ Put(Ev.p, [t |-> "link", to |-> Ev.to]) /\ UNCHANGED <<base, mime, tags, last>>
     \/ Is("mkfifo") /\ Put(Ev.p, [t |-> "fifo"]) /\ UNCHANGED <<base, mime, tags, last>>
     \/ Is("mime") /\ mime' = (IF Ev.t = <<>> THEN MimeFew ELSE MimeParse(Ev.t)) /\ UNCHANGED <<fs, base, tags, last>>
     \/ Is("mimeup") /\ mime' = {x \in mime : x.k # Ev.k} \union (IF Ev.v = <<>> THEN {} ELSE {[k |-> Ev.k, v |-> Ev.v]}) /\ UNCHANGED <<fs, base, tags, last>>
     \/ Is("export") /\ Ev.ok /\ LET r == Res(fs, <<>>, Ev.p, 20) IN base' = [k |-> IF fs[r.p].t = "file" THEN "file" ELSE "dir", p |-> r.p] /\ UNCHANGED <<fs, mime, tags, last>>
     \/ Is("sfile") /\ base' = [k |-> "sfile", p |-> Ev.p] /\ UNCHANGED <<fs, mime, tags, last>>
     \/ Is("resp") /\ UNCHANGED <<fs, base, mime>> /\ last' = Etag(RespHead(Ev.head)) /\
        LET q == ParseReq(CutReq(Ev.req), 1000, 1000) hd == RespHead(Ev.head) IN
        /\ q.st = "ready" /\ Ev.framed
        /\ IF Ev.werr THEN Broken(q, hd, Ev.body, Ev.open) /\ UNCHANGED tags ELSE Served(q, hd, Ev.body, ~Ev.open)
     \/ Is("end") /\ Ev.live = 0 /\ Ev.fds = 0 /\ UNCHANGED <<fs, base, mime, tags, last>>
  /\ Advance
TraceSpec == TInit /\ [][TNext]_tvars
=============================================================================
