INIT Init
NEXT Next
CONSTANT G = 2
INVARIANTS ProductsAgree Enclosure Attained Group Duality Monotone Subdistributive LatticeLaws
CHECK_DEADLOCK FALSE
