SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS Temps <- TheTemps
          Vapours <- TheVapours
INVARIANTS TypeOK NoDemandNoService Monotone Clothes TargetLaw TargetOrder
PROPERTIES Settles HeatWhenCold CoolWhenWarm WindowsFromRest NoFlip OnlyThese
