CONSTANT Toys = {"toy3", "toy7", "toy11", "toy13", "toy31"}
SPECIFICATION Spec
INVARIANTS Group Order Visible
CHECK_DEADLOCK FALSE
