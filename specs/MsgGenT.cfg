CONSTANTS Tokens = {"x}y|", "{s}", "{ n }", "{t}", "{t,goTime}", "{t, goTime, 2006-01-02}", "{t ,goTime,15:04,x}", "{s, goTime}", "{zz}", "{}", "{s n}", "{b}", "{s", "é"}
MaxLen = 3
SPECIFICATION Spec
INVARIANT Emit
CHECK_DEADLOCK FALSE
