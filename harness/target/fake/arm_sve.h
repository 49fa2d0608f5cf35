// empty
