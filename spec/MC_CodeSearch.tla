---------------------------- MODULE MC_CodeSearch ---------------------------
EXTENDS CodeSearchModel
P(s) == <<SLASH>> \o s
\* /a /a/b /a/b/b /a.b /b  and more
S1 == {P(<<97>>), P(<<97, 47, 98>>), P(<<97, 46>>)}
S2 == {P(<<97>>), P(<<97, 47, 98>>), P(<<97, 47, 98, 47, 99>>), P(<<97, 46>>), P(<<97, 47, 46, 98>>)}
Z == <<122, 46, 122, 105, 112>>
S3 == S2 \cup {P(<<98>>), P(<<97, 98>>), P(<<97, 33>>), P(<<98, 47, 97>>), P(<<98, 47, 98>>), P(<<97, 47>> \o Z), P(Z), P(Z \o <<33>>),
               P(<<98, 47, 98, 126>>), P(<<97, 47, 35, 97>>), P(<<97, 47, 35, 97, 47, 98>>), P(<<97, 47, 98, 47, 99, 47, 100>>)}
RA == {<<SLASH>>, P(<<97>>), P(<<97, 47, 98>>)}
RB == RA \cup {P(<<97, 46>>)}
RC == RB \cup {P(<<98>>), P(<<97, 47, 98, 47, 99>>), P(Z), P(<<97, 47>> \o Z), P(<<97, 98>>), P(<<97, 47, 35, 97>>), P(<<97, 47, 46, 98>>)}
=============================================================================
