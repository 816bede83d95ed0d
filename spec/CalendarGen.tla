---------------------------- MODULE CalendarGen ----------------------------
EXTENDS Calendar, Gen
Pick1(S) == RandomElement(S)
\* interesting days: ends of years and months, leap days, the last representable day
Edge(h) == LET y == Pick1(1970..2553) k == Pick1(-2..2) d == DaysTo(y) + Pick1({0, 58, 59, 60, 364, 365}) + k
        IN IF d < 0 THEN 0 ELSE d
GenNext == \/ /\ More
              /\ \E d \in {IF RandomElement(BOOLEAN) THEN Edge(hist) ELSE Pick1(0..213500)} :
                 \E s \in {Pick1({0, 1, 59, 60, 3599, 3600, 43199, 86399, Pick1(0..86399)})} :
                 \E us \in {Pick1({0, 1, 999999, Pick1(0..999999)})} : \E z \in {Pick1({0, 60, -300, 210, 345, -570})} :
                 \E ns \in {Pick1({0, 999})} :
                   \/ RandomElement(BOOLEAN) /\ Record("long", <<d, s, us, ns>>, <<Long(d, s)>>)
                   \/ Record("short", <<d, s, us, ns, z>>, <<Short(d, s, us, z)>>)
              /\ UNCHANGED day
           \/ ~More /\ Finish /\ UNCHANGED day
GenSpec == Init /\ GenStart /\ [][GenNext]_<<day, hist, emitted>>
=============================================================================
