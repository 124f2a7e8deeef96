SPECIFICATION MCSpec
CONSTANTS
 Records <- SmallRecords
 MaxRecords = 3
 Money <- SmallMoney
 Emit = TRUE
INVARIANTS EmitCase OrdersExact SortedAgrees PricesOpposite NamesOnce OptionsOnce MembershipExact TagsExact VendorsExact FiltersExact RangesMonotone OwnData
PROPERTY Grows
CHECK_DEADLOCK FALSE
