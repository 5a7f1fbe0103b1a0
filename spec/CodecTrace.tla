----------------------------- MODULE CodecTrace -----------------------------
EXTENDS Codec, JsonText, TraceBase
tvars == <<tid, l>>
TInit == TBInit
Ok == CASE Ev.e = "b64e" -> B64EncOk(Ev.in, Ev.out) /\ Ev.rt
        [] Ev.e = "b64d" -> B64DecOk(Ev.in, Ev.null, Ev.out)
        [] Ev.e = "unq" -> UnquoteOk(Ev.in, Ev.out)
        [] Ev.e = "quo" -> QuoteOk(Ev.in, Ev.out) /\ Ev.rt
        [] Ev.e = "quom" -> QuoteMaxOk(Ev.in, Ev.max, Ev.out, Ev.r)
        [] Ev.e = "cq" -> CQuoteOk(Ev.in, Ev.out)
        [] Ev.e = "cqm" -> CQuoteMaxOk(Ev.in, Ev.max, Ev.out)
        [] Ev.e = "html" -> /\ IF Ev.null THEN HtmlPlain(Ev.in) ELSE HtmlOk(Ev.in, Ev.out)
                            /\ HtmlOk(Ev.in, Ev.dup)
        [] Ev.e = "jq" -> JsonQuoteOk(Ev.in, Ev.out) /\ Ev.rt
        [] Ev.e = "juq" -> LET r == Str(Ev.in, 2, <<>>, FALSE) IN      \* a quoted text, maybe with more after it
                           CASE r.st = "ok" -> Ev.r = r.p - 1 /\ Ev.out = r.v
                             [] r.st = "bad" -> Ev.r < 0
                             [] OTHER -> TRUE
        [] Ev.e = "tojson" -> /\ ~Ev.null /\ ~Ev.backnull
                              /\ LET o == JsonObj(Ev.text) IN o.st = "ok" /\ SameDict(o.v, Ev.d)
                              /\ SameDict(Ev.d, Ev.back)
        [] Ev.e = "fromjson" -> LET o == JsonObj(Ev.text) IN
                                CASE o.st = "ok" -> ~Ev.null /\ SameDict(o.v, Ev.d)
                                  [] o.st = "bad" -> Ev.null
                                  [] OTHER -> TRUE
        [] Ev.e = "end" -> Ev.live = 0
        [] OTHER -> FALSE
TNext == More /\ Ok /\ Advance
TraceSpec == TInit /\ [][TNext]_tvars
=============================================================================
