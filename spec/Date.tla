-------------------------------- MODULE Date --------------------------------
(* Seconds since 1970 as the date of HTTP headers.                          *)
EXTENDS Bytes
LOCAL Two(n) == <<48 + (n \div 10), 48 + (n % 10)>>
LOCAL DayNames == <<B("Thu"), B("Fri"), B("Sat"), B("Sun"), B("Mon"), B("Tue"), B("Wed")>>
LOCAL MonNames == <<B("Jan"), B("Feb"), B("Mar"), B("Apr"), B("May"), B("Jun"), B("Jul"), B("Aug"), B("Sep"), B("Oct"), B("Nov"), B("Dec")>>
LOCAL Leap(y) == ((y % 4) = 0 /\ (y % 100) # 0) \/ (y % 400) = 0
LOCAL YearLen(y) == IF Leap(y) THEN 366 ELSE 365
LOCAL MonLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
RECURSIVE YearOf(_, _)
LOCAL YearOf(d, y) == IF d < YearLen(y) THEN <<y, d>> ELSE YearOf(d - YearLen(y), y + 1)
RECURSIVE MonOf(_, _, _)
LOCAL MonOf(d, y, m) == IF d < MonLen(y, m) THEN <<m, d + 1>> ELSE MonOf(d - MonLen(y, m), y, m + 1)
Civil(t) == LET yd == YearOf(t \div 86400, 1970) md == MonOf(yd[2], yd[1], 1) s == t % 86400 IN
  [y |-> yd[1], m |-> md[1], d |-> md[2], wd |-> (t \div 86400) % 7, hh |-> s \div 3600, mm |-> (s \div 60) % 60, ss |-> s % 60]
Clock(c) == Two(c.hh) \o <<58>> \o Two(c.mm) \o <<58>> \o Two(c.ss)
HttpDate(t) == LET c == Civil(t) IN DayNames[c.wd + 1] \o B(", ") \o Two(c.d) \o B(" ") \o MonNames[c.m] \o B(" ") \o DecBytes(c.y) \o B(" ") \o Clock(c) \o B(" GMT")
CookieDate(t) == LET c == Civil(t) IN DayNames[c.wd + 1] \o B(", ") \o Two(c.d) \o B("-") \o MonNames[c.m] \o B("-") \o DecBytes(c.y) \o B(" ") \o Clock(c) \o B(" GMT")
IsoDate(t) == LET c == Civil(t) IN DecBytes(c.y) \o B("-") \o Two(c.m) \o B("-") \o Two(c.d) \o B("T") \o Clock(c) \o B("Z")
=============================================================================
