// Units, signs, keyword strings.
frozen unitSizes, keywords, keywordStrings;

// the unit a suffix names
def unitOf(in string) Unit = cond {
  in == "%" || in == "PCT" || in == "Pct" -> Percent;
  in == "rkm" || in == "rKM" || in == "Rkm" || in == "km" || in == "Km" -> Kilometer;
  in == "rm" || in == "rM" || in == "Rm" || in == "M" || in == "met" -> Meter;
  in == "kph" || in == "KPH" || in == "Kph" -> Kph;
  in == "mph" || in == "Mph" || in == "MPH" -> Mph;
  in == "c" || in == "C" -> Celsius;
  in == "f" || in == "F" -> Fahrenheit;
  in == "bar" || in == "Bar" || in == "BAR" -> Bar;
  in == "Psi" || in == "PSI" || in == "si" || in == "psi" -> Psi;
  in == "am" || in == "Am" || in == "AM" -> AM;
  in == "pm" || in == "Pm" || in == "PM" -> PM;
  else -> Unknown };
contract unitFromString(in) { tags C06; pure; ensures result == unitOf(in); }

def unitText(u Unit) string = cond {
  u == Kph -> "Kph"; u == Mph -> "Mph"; u == Celsius -> "C"; u == Fahrenheit -> "F"; u == Kilometer -> "Km"; u == Meter -> "M";
  u == Bar -> "Bar"; u == Psi -> "Psi"; u == AM -> "AM"; u == PM -> "PM"; else -> "?" };
contract (Unit).String(u) { tags C06 C10; pure;
  ensures result == unitText(u);
  // the printed name reads back as the unit, by unitFromString and by the parser's own classification
  ensures [back C06] Kph <= u && u <= PM && u != Percent ==> result != "?" && unitOf(result) == u;
  ensures [kind C06] cond { u == Kph -> kphU(result); u == Mph -> mphU(result); u == Celsius -> celU(result); u == Fahrenheit -> farU(result);
    u == Kilometer -> kmU(result); u == Meter -> metU(result); u == Bar -> barU(result); u == Psi -> psiU(result); else -> true };
}
