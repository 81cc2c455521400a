------------------------------- MODULE Units -------------------------------
(* Units of measurement and the conversions between them.                    *)
(* <<a, b, f, x, o, q>>: a value v in unit a is v * f * 10^x + o * 10^q in   *)
(* unit b. Conversions are defined for these pairs, in both directions, and  *)
(* from any unit to itself.                                                  *)
EXTENDS Decimal

Linear == {
  <<"K", "C", 1, 0, -27315, -2>>, <<"K", "C/10", 1, 1, -27315, -1>>, <<"C", "C/10", 1, 1, 0, 0>>,
  <<"minuti", "S", 60, 0, 0, 0>>, <<"MINUTE", "S", 60, 0, 0, 0>>,
  <<"G/M**3", "KG/M**3", 1, -3, 0, 0>>, <<"ug/m**3", "KG/M**3", 1, -9, 0, 0>>, <<"mg/l", "KG/M**3", 1, -3, 0, 0>>,
  <<"PA", "KPA", 1, -3, 0, 0>>, <<"PA", "mBar", 1, -2, 0, 0>>, <<"PA", "hPa", 1, -2, 0, 0>>, <<"PA", "Bar", 1, -5, 0, 0>>,
  <<"NBAR", "PA", 1, -4, 0, 0>>,
  <<"MM", "M", 1, -3, 0, 0>>, <<"cm", "M", 1, -2, 0, 0>>, <<"KM", "M", 1, 3, 0, 0>>, <<"hm", "M", 1, 2, 0, 0>>, <<"mm", "M", 1, -3, 0, 0>>,
  <<"FT", "M", 3048, -4, 0, 0>>,
  <<"PERCENT", "%", 1, 0, 0, 0>>, <<"1/8", "%", 125, -1, 0, 0>>, <<"RATIO", "%", 1, 2, 0, 0>>,
  <<"cal/cm**2", "J/M**2", 41868, 0, 0, 0>>, <<"MJ/M**2", "J/M**2", 1, 6, 0, 0>>, <<"Mj/m**2", "J/M**2", 1, 6, 0, 0>>,
  <<"cal/s/cm**2", "W/M**2", 41868, 0, 0, 0>>, <<"cal/h/cm**2", "W/M**2", 1163, -2, 0, 0>>,
  <<"m/s/10", "M/S", 1, -1, 0, 0>>, <<"nodi", "M/S", 514444, -6, 0, 0>>,
  <<"mV", "V", 1, -3, 0, 0>>,
  <<"mm/10", "KG/M**2", 1, -1, 0, 0>>,
  <<"GPM", "m**2/s**2", 980665, -5, 0, 0>>, <<"GPM", "M**2/S**2", 980665, -5, 0, 0>>,
  <<"MGP", "m**2/s**2", 980665, -5, 0, 0>>, <<"MGP", "M**2/S**2", 980665, -5, 0, 0>>,
  <<"ms/cm", "S/M", 1, -1, 0, 0>>, <<"mS/cm", "S/M", 1, -1, 0, 0>> }

\* different names of the same unit
Names == {
  <<"A", "YEAR">>, <<"YEARS", "YEAR">>, <<"MON", "MONTH">>, <<"MONTHS", "MONTH">>, <<"D", "DAY">>, <<"DAYS", "DAY">>,
  <<"H", "HOUR">>, <<"HOURS", "HOUR">>, <<"MIN", "MINUTE">>, <<"MINUTES", "MINUTE">>, <<"SECONDS", "SECOND">>, <<"SECOND", "S">>,
  <<"sec", "S">>, <<"G/G", "KG/KG">>, <<"m**(2/3)/S", "M**(2/3)/S">>, <<"DEGREE**2", "DEGREE2">>, <<"KG/M**2", "KGM-2">>,
  <<"KG/M**2", "KG M-2">>, <<"J/M**2", "JM-2">>, <<"Bq/L", "BQ L-1">>, <<"DOBSON", "DU">>, <<"LOG(1/M**2)", "LOG (M-2)">>,
  <<"DEGREE", "DEG">>, <<"DEGREE TRUE", "DEG">>, <<"DEGREE TRUE", "gsess">>, <<"m/sec", "M/S">>, <<"m", "M">>, <<"mm", "KG/M**2">>,
  <<"degree true", "DEGREE TRUE">>, <<"GPM", "MGP">>, <<"W/m**2", "W/M**2">>, <<"J M-2", "J/M**2">>, <<"ppt", "PART PER THOUSAND">>,
  <<"NTU", "LM">> }


Direct == [p \in {<<l[1], l[2]>> : l \in Linear} |-> CHOOSE l \in Linear : l[1] = p[1] /\ l[2] = p[2]]
Supported(a, b) == \/ a = b
                   \/ <<a, b>> \in DOMAIN Direct \/ <<b, a>> \in DOMAIN Direct
                   \/ <<a, b>> \in Names \/ <<b, a>> \in Names
                   \/ <<a, b>> \in {<<"octants", "DEGREE TRUE">>, <<"DEGREE TRUE", "octants">>}

\* how precise the factors need to be: some of these units are related by rounded factors
Rounded == {"FT", "nodi", "cal/cm**2"}
Tolerance(a, b) == IF a \in Rounded \/ b \in Rounded THEN DE(3, -5)
                   ELSE IF {a, b} \cap {"GPM", "MGP"} # {} THEN DE(1, -8) ELSE DE(1, -12)

\* va in unit a and vb in unit b may stand for the same quantity; slack: how far vb may be besides
Same(l, va, vb, sa, sb) ==
  LET f == DE(l[3], l[4])
      x == DMul(va, f)
      o == DE(l[5], l[6])
      t == DMul(Tolerance(l[1], l[2]), DMax(DAbs(x), DMax(DAbs(vb), DAbs(o))))
      \* the zero of the Celsius scale is given with a few digits only
      z == IF l[5] = 0 THEN DZero ELSE DMul(DE(2, -5), f)
  IN DWithin(DAdd(x, o), vb, DAdd(DAdd(t, z), DAdd(DMul(sa, f), sb)))
\* r may be the result of converting v from unit a to unit b, rounded to within slack
Converted(a, b, v, r, slack) ==
  IF a = b \/ <<a, b>> \in Names \/ <<b, a>> \in Names THEN DWithin(v, r, slack)
  ELSE IF <<a, b>> \in DOMAIN Direct THEN Same(Direct[<<a, b>>], v, r, DZero, slack)
  ELSE Same(Direct[<<b, a>>], r, v, slack, DZero)

-----------------------------------------------------------------------------
(* Heights in the standard atmosphere, in metres, and their pressures, in    *)
(* hundredths of hPa, to within three in a thousand                          *)
Atmosphere == <<<<0, 101325>>, <<1000, 89874>>, <<2000, 79495>>, <<5000, 54020>>, <<8000, 35600>>, <<11000, 22632>>, <<15000, 12045>>, <<20000, 5475>>>>
=============================================================================
