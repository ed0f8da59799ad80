SPECIFICATION Spec
INVARIANTS Covered Mandatory Disjoint OneName SameByte Total Refused Unique Behind
PROPERTIES Grows Monotone
CHECK_DEADLOCK FALSE
