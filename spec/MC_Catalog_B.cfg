SPECIFICATION MCSpec
CONSTANTS
 Records <- MoreRecords
 MaxRecords = 4
 Money <- SmallMoney
 Emit = TRUE
INVARIANTS EmitCase OrdersExact SortedAgrees PricesOpposite NamesOnce OptionsOnce MembershipExact TagsExact VendorsExact FiltersExact RangesMonotone OwnData
PROPERTY Grows
CHECK_DEADLOCK FALSE
