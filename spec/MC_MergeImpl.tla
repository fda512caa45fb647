---------------------------- MODULE MC_MergeImpl ----------------------------
EXTENDS MergeImpl
\* / a a/b a.b a!b ab a/b/c b; an archive z, what is in it, and its neighbours
a == 97
b == 98
P(s) == <<SLASH>> \o s
U1 == {P(<<a>>), P(<<a, SLASH, b>>), P(<<a, 46, b>>), P(<<a, b>>), P(<<b>>), P(<<a, 1, b>>), P(<<a, SLASH, b, SLASH, a>>), P(<<a, 33>>)}
R1 == {<<SLASH>>, P(<<a>>), P(<<a, SLASH, b>>), P(<<a, 46, b>>), P(<<b>>), P(<<a, b>>)}
=============================================================================
